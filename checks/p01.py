"""Stack-depth dataflow over the parser.  Push and pop are recognised from what they do to ParseContext.Scope (assigned a
caller-supplied node: +1; assigned its own predecessor: -1), so wrappers and inlined copies count.  Every function that can
reach them gets an effect summary (set of depth changes, split by returned constant).  Functions that leave the stack one
deeper or shallower on every exit are helpers whose effect is charged to their callers; a function whose exits disagree, an
entry point whose effect is not 0, and a pop below the entry depth in a non-helper are violations."""
import re, gx
from flow import Flow, UNK

def is_scope(e):
    return e["k"] == "mem" and e["n"] == "Scope" and e.get("r") == "ParseContext"

class Depth(Flow):
    def __init__(self, F, summaries):
        super().__init__(F); self.sum = summaries; self.under = []; self.allow_under = False
    def bump(self, cs, d, node):
        n = cs + d
        if n < 0: self.under.append(node)
        return max(-3, min(6, n))
    def on_assign(self, e, cs):
        if e["k"] == "asg" and e["o"] == "=":
            l = gx.strip(e["x"])
            if is_scope(l):
                y = gx.strip(e["y"])
                if y["k"] == "mem" and y["n"] == "Prev" and is_scope(gx.strip(y["b"])): return [self.bump(cs, -1, e)]
                if y["k"] in ("var", "addr"): return [self.bump(cs, +1, e)]
        return [cs]
    def on_call(self, e, cs):
        s = self.sum.get(e.get("id"))
        if s is None: return [(cs, UNK)]
        return [(self.bump(cs, d, e), r) for d, r in sorted(s, key=repr)]

def analyse(F):
    by = F.byid
    callees = {f["id"]: {c["id"] for c in gx.calls(f["b"]) if c.get("id") in by} for f in F.functions}
    direct = {f["id"] for f in F.functions for x in gx.walk(f["b"]) if x["k"] == "asg" and is_scope(gx.strip(x["x"]))}
    if not direct: raise gx.AnalysisBroken("no function assigns the scope stack")
    reach = set(direct); ch = True
    while ch:
        ch = False
        for i, cs in callees.items():
            if i not in reach and cs & reach: reach.add(i); ch = True
    called = {c for i in reach for c in callees[i]}
    # contract of every function: assumed balanced; the stack primitives and uniform helpers get their computed effect
    summ = {i: {(0, UNK)} for i in reach}
    for i in direct: summ[i] = set()
    res = {}
    for rnd in range(12):
        changed = False
        for i in sorted(reach, key=lambda i: (i not in direct, i)):
            fl = Depth(F, summ)
            outs = fl.function(by[i], 0)
            res[i] = (outs, fl.under)
            s = {(c, x if x in (0, 1) else UNK) for c, nd, x in outs}
            deps = {c for c, _ in s}
            perconst = {x: {c for c, y in s if y == x} for _, x in s}
            isbool = F.type(by[i]["t"])["k"] == "bool"
            if len(deps) <= 1 or (isbool and UNK not in perconst and all(len(v) == 1 for v in perconst.values())):
                # uniform effect: charge it to the callers
                if s and s != summ[i]: summ[i] = s; changed = True
        if not changed: break
    else: raise gx.AnalysisBroken("scope effect summaries do not stabilise")
    return reach, called, res, summ, direct

def entry(F, f, called):
    return f["id"] not in called or bool(re.match(r"^parse_\w+$", f["n"]) and f["ps"] and "Str" in F.type(f["ps"][0]["t"])["s"] and "Builder" not in F.type(f["ps"][0]["t"])["s"])

def check(rep):
    for cfg in ("nofatal", "base"):
        F = gx.extract(cfg)
        reach, called, results, summ, direct = analyse(F)
        rep.need("functions that can change the scope stack (%s)" % cfg, len(reach), 40)
        helpers = {i for i in reach if {d for d, _ in summ[i]} - {0}}
        rep.cov["helpers (%s)" % cfg] = {F.byid[h]["n"]: sorted({d for d, _ in summ[h]}) for h in helpers}
        npaths = 0; nent = 0
        for i in sorted(reach):
            f = F.byid[i]; outs, under = results[i]
            npaths += len(outs)
            ent = entry(F, f, called); nent += ent
            if i in helpers and not ent:
                rep.ok(); continue
            rets = [n for n in gx.walk(f["b"]) if n["k"] == "ret"]
            for c, nd, x in outs:
                if c == 0: rep.ok(); continue
                rep.bad("%s:%+d" % (f["n"], c), F.at(nd) if nd else F.at(f["end"]), "scope-balance",
                        "%s returns here with the scope stack %+d relative to entry" % (f["n"], c))
            for nd in under:
                rep.bad("%s:under" % f["n"], F.at(nd), "scope-underflow", "%s pops a scope it did not push" % f["n"])
            rep.sample("%s: %d exits balanced" % (f["n"], len(outs)))
        rep.need("entry points (%s)" % cfg, nent, 10)
        rep.cov["exit states (%s)" % cfg] = npaths
