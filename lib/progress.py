"""Loop progress of the parsing routines: the routine interpreter with consumption tracking.  Every loop carries a mark that consuming a token sets;
an iteration that reaches the loop head again unmarked, in exactly the state it left it in, can repeat for ever."""
import gx, pspec, parsei
from parsei import ParserInterp, INVALID, ANY, POS, NTOK
from absint import Interp, Rec, C0, C1, UND, Dom, is_c, is_addr
from astm import NULLCODE, code

class ProgInterp(ParserInterp):
    mismatch = True
    def __init__(self, F, spec, target, nocons=None, **kw):
        ParserInterp.__init__(self, F, spec, target, names=False, max_iter=5, **kw)
        M = self.models
        M["lex_current"] = ProgInterp.m_cur; M["lex__eat"] = ProgInterp.m_eat
        for n, m in list(M.items()):
            nm = getattr(m, "__name__", "")
            if nm in ("m_def", "m_defother", "m_arr", "m_take"): M[n] = getattr(ProgInterp, nm)
            elif nm in ("m_cache", "m_text", "m_sbmake", "m_sbappend", "m_sbappend_ref"): M[n] = ProgInterp.m_txt
        for n in spec: M[n] = ProgInterp.m_producer
        self.nocons = nocons or {}; self.calls = set(); self.stuck = {}; self.heads = set(); self.iters = 0
    def leftterm(self, st): return ("op", "-", NTOK, ("idx", 0))
    def atend(self, st):
        """[(state, at the end of the tokens?)]"""
        if st.x.get("end"): return [(st, True)]
        t = self.leftterm(st); d = self.getdom(st, t)
        out = []
        if d.hi > 0: out.append((self.refine(st, t, ">", 0), False))
        if d.lo <= 0:
            s = self.refine(st, t, "==", 0).clone(); s.x["end"] = 1; out.append((s, True))
        return out
    def m_cur(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            if vs[1] == C0 or s.x.get("end"): out.append((s, ("addr", self.tok(s.x["cur"]), ()))); continue
            t = self.typeterm(s.x["cur"]); d = self.getdom(s, t)
            s1 = self.refine(s, t, "!=", self.NL)
            if s1 is not None: s1 = self.refine(s1, t, "!=", self.CM)
            if s1 is not None: out.append((s1, ("addr", self.tok(s1.x["cur"]), ())))
            if d.has(self.NL) or d.has(self.CM):
                s2 = self.advance(s)
                t = self.typeterm(s2.x["cur"])
                s2 = self.refine(s2, t, "!=", self.NL); s2 = self.refine(s2, t, "!=", self.CM)
                out.append((s2, ("addr", self.tok(s2.x["cur"]), ())))
        return self.dedupe_vals(out) if len(out) > 2 else out
    def m_eat(self, e, st):
        out = []
        for s0, vs in self.evargs(e["a"], st):
            for s, end in self.atend(s0):
                if end: out.append((s, C0)); continue
                want = vs[1]; t = self.typeterm(s.x["cur"]); d = self.getdom(s, t)
                if is_c(want):
                    w = want[1]
                    if d.has(w): out.append((self.advance(self.refine(s, t, "==", w)), C1))
                    for f in (self.NL, self.CM):
                        if w != f and d.has(f): out.append((self.advance(self.refine(s, t, "==", f)), C0))
                    s2 = self.refine(s, t, "!=", w)
                    for f in (self.NL, self.CM):
                        if s2 is not None and w != f: s2 = self.refine(s2, t, "!=", f)
                    if s2 is not None:
                        if w == self.ID: out.append((self.advance(s2), C1))        # a macro standing for an identifier
                        if self.mismatch: s2 = s2.clone(); out.append((s2, C0))
                else: out.append((self.advance(s), C1))
        return out
    def m_producer(self, e, st):
        n = e["n"]; sp = self.spec[n]; out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone(); ft = None if s.x.get("end") else self.kinds(s)
            a0 = None
            if vs and self.devalue(s, vs[0]) == self.typeterm(s.x["cur"]): a0 = "current"
            elif n in self.byarg and vs:
                a = self.devalue(s, vs[0]); a0 = a[1] if is_c(a) else self.getdom(s, a).only() if a not in (ANY, UND) else None
            self.calls.add((n, a0, ft)); can = self.nocons.get((n, a0, ft), ())
            for v in vs:
                v = self.devalue(s, v)
                if is_addr(v) and v[1][0] in ("L", "T"): self.write(s, (v[1], v[2]), ANY, e)
                self.take(s, v, e)
            def val(s):
                if sp["ret"] == "void": return (s, UND)
                if sp["ret"] == "token": return (s, ("ident", "x"))
                if sp["ret"] == "bool": return (s, ANY)
                return (s, code("N"))
            if not s.x.get("end"): out.append(val(self.advance(s)))
            if "val" in can: out.append(val(s.clone()))
            elif "val end" in can:
                for s2, end in self.atend(s):
                    if end: out.append(val(s2.clone()))
            if sp["ret"] == "code":
                if "null" in can: out.append((s.clone(), NULLCODE))
                elif "null end" in can:
                    for s2, end in self.atend(s):
                        if end: out.append((s2.clone(), NULLCODE))
                if "inv" in can: out.append((s.clone(), INVALID))
                elif "inv end" in can:
                    for s2, end in self.atend(s):
                        if end: out.append((s2.clone(), INVALID))
                if "INV" in can and not s.x.get("end"): out.append((self.advance(s), INVALID))
        return out
    def unary(self, e, st):
        o = ParserInterp.unary(self, e, st)
        return self.stepped(e, o) if e["o"] in ("++", "--") else o
    def assign(self, e, st):
        o = ParserInterp.assign(self, e, st)
        return self.stepped(e, o) if e.get("o", "=") != "=" else o
    def stepped(self, e, outs):
        """a local was stepped"""
        x = e["e"] if e["k"] == "un" else e["x"]
        if x["k"] == "var" and x["s"] in ("l", "p"):
            for s, *_ in outs:
                for k in [k for k in s.x if type(k) is tuple and k[0] == "prog" and x["id"] not in self.inner.get(k[1], ())]: s.x[k] = 1
        return outs
    inner = {}
    def at_head(self, n, states, it):
        k = ("prog", n["l"]); sk = ("snap", n["l"]); self.heads.add((self.F.byid[self.stack[-1]]["n"], n["l"])); self.iters += len(states)
        cnt = self.counters(n) if it >= 1 else {}
        self.inner[n["l"]] = frozenset(self.declids(n["b"]))
        keep = []
        for s in states:
            if len(self.stack) == 1:
                for r in [r for r in s.mem if r[0] == "T" or (r[0] == "L" and r[1] > 1)]: del s.mem[r]
                self.collect(s)
            if (it == 0 or s.x.get(k)) and self.consumes(n):
                if it > 0 and not s.x.get("end"): self.gcfacts(s, frozenset())
                if len(self.stack) == 1:
                    for r, v in list(s.mem.items()):        # what was made or read so far decides nothing from here on
                        if r[0] == "L" and (isinstance(v, Rec) and ("ast" in v.d or not is_c(v.base)) or type(v) is tuple and v[0] in ("mem", "ident")): s.mem[r] = ANY
            for i, upward in cnt.items():
                r = ("L", len(self.stack), i); v = s.mem.get(r)
                if v is not None and is_c(v):
                    if not upward: s.mem[r] = ANY
                    elif v[1] >= 1: s.mem[r] = POS
            if len(self.stack) == 1: self.canonical(s)
            prog = s.x.pop(k, 1); snap = s.x.pop(sk, None); s.x.pop("last", None); s.x.pop("lost", None)
            cur = s.key()
            if it > 0 and not prog and snap == hash(cur):
                self.stuck.setdefault((self.F.byid[self.stack[-1]]["n"], n["l"], bool(s.x.get("end"))), self.describe(s))
                continue
            s.x[k] = 0
            if it > 0 and not prog: s.x[sk] = hash(cur)
            keep.append(s)
        states = keep
        return self.thin(self.dedupe(states), self.hlimit)
    def kinds(self, s):
        d = self.getdom(s, self.typeterm(s.x["cur"])); o = d.only()
        if o is not None: return (o,)
        k = tuple(sorted(v for v in d.inn if d.has(v))) if d.inn is not None else ()
        return k if 0 < len(k) <= 8 else None
    def consumes(self, n):
        k = ("consumes", id(n))
        if k not in self.dcache:
            acc = [False]; seen = set()
            def w(x):
                if type(x) is dict:
                    if x.get("k") == "call":
                        nm = x.get("n")
                        if nm in ("lex__eat", "lex_current") or nm in self.spec: acc[0] = True
                        elif nm not in self.models and x.get("id") in self.F.byid and x["id"] not in seen: seen.add(x["id"]); w(self.F.byid[x["id"]].get("b"))
                    for y in x.values():
                        if type(y) in (dict, list): w(y)
                elif type(x) is list:
                    for y in x: w(y)
            w(n); self.dcache[k] = acc[0]
        return self.dcache[k]
    def describe(self, s):
        d = s.dom.get(self.typeterm(s.x["cur"]))
        if d is None: return "any token"
        names = {v: k for k, v in self.tk.items()}
        inn = [names[v] for v in sorted(names) if d.has(v)]
        return "token " + ", ".join(inn[:4]) + ("..." if len(inn) > 4 else "")
    def loop(self, n, states, o, cond, body, step, post_test=False):
        ParserInterp.loop(self, n, states, o, cond, body, step, post_test)
        for k in ("norm", "brk", "cont"):
            for s in o[k]: s.x.pop(("prog", n["l"]), None); s.x.pop(("snap", n["l"]), None)
    def collect(self, st): pass
    # every node is one opaque object: nothing about nodes decides progress
    def newnode(self, st, label, typ=None, edges=(), prefix="n", base=None): return code("N")
    def m_def(self, e, st): return [(s, code("N")) for s, vs in self.evargs(e["a"], st)]
    m_defother = m_def
    def m_arr(self, e, st): return [(s, ANY) for s, vs in self.evargs(e["a"], st)]
    def m_take(self, e, st): return [(s, UND) for s, vs in self.evargs(e["a"], st)]
    def m_txt(self, e, st): return [(s, ANY) for s, vs in self.evargs(e["a"], st)]
    def take(self, st, v, e=None): pass
    def read(self, st, loc):
        if loc[0] == ("H", "N"): return ANY
        if loc[0] == ("H", "ctx") and loc[1][:2] == ("parser", "Tokens"):
            if loc[1][2:3] == ("Idx",): return ("idx", 0)
            if loc[1][2:3] != ("Arr",): return Rec(C0, {"Arr": ("tokarr",), "Idx": ("idx", 0)})
        return ParserInterp.read(self, st, loc)
    def default(self, st, root):
        if root[0] == "H" and root[1] == "N": return ANY
        return ParserInterp.default(self, st, root)
    def write(self, st, loc, val, node=None):
        if loc[0] == ("H", "N"): return
        ParserInterp.write(self, st, loc, val, node)
    def start(self):
        s = ParserInterp.start(self); s.x[("prog", "fn")] = 0; return s
def interp(F, name, arg=None, nocons=None, mismatch=True, first=None, **kw):
    import sys
    sys.setrecursionlimit(100000)
    ip = ProgInterp(F, {k: dict(v) for k, v in pspec.SPEC.items()}, name, nocons=nocons, **kw); ip.budget = 80_000_000; ip.mismatch = mismatch
    ip.byarg = {k: {(ip.ct if x in ip.ct else ip.tk)[x]: t for x, t in v.items()} for k, v in pspec.BYARG.items()}
    ip.first = {k: [ip.tk[x] for x in v] for k, v in pspec.FIRST.items()}
    if first is not None: ip.first[name] = list(first)
    if arg is not None: ip.arg0 = arg if arg != "current" else ip.typeterm(1)
    for f in F.byname.get(name, []): ip.analyse(f)
    return ip

def job(a):
    """one routine in one entry context -> what it needs and what it found"""
    cfg, fn, arg, ft, nc = a
    F = gx.extract(cfg)
    ip = interp(F, fn, arg=arg, first=ft, nocons=nc)
    kinds = set()
    for s, v, n in ip.rets:
        k = "inv" if v == INVALID else "null" if v in (NULLCODE, C0) else "val"
        if not s.x.get(("prog", "fn")): kinds.add(k + " end" if s.x.get("end") else k)
        elif k == "inv": kinds.add("INV")
    return (fn, arg, ft), frozenset(kinds), dict(ip.stuck), frozenset(ip.calls), ip.heads, len(ip.rets), ip.iters

def solve(cfg, F, limit=40):
    """least fixpoint of the consumption summaries over the contexts that occur; -> (results by context, rounds)"""
    ev = {**F.enumvals("CodeType"), **F.enumvals("TokType")}
    keys = {(f, ev[a] if a else None, tuple(ev[x] for x in pspec.FIRST[f]) if f in pspec.FIRST else None) for f in pspec.ORDER if f in F.byname for a in pspec.BYARG.get(f, [None])}
    order = {f: i for i, f in enumerate(pspec.ORDER)}
    summ = {}; res = {}; dirty = set(keys); rounds = 0
    while dirty:
        rounds += 1
        if rounds > limit: raise gx.AnalysisBroken("consumption summaries do not converge")
        todo = sorted(dirty, key=lambda k: (order[k[0]], str(k)))
        out = gx.pmap(job, [(cfg,) + k + (summ,) for k in todo])
        changed = set()
        for r in out:
            k = r[0]; res[k] = r
            new = r[1] | summ.get(k, frozenset())
            if new != summ.get(k, frozenset()): changed.add(k)
            summ[k] = new
        dirty = {k for k, r in res.items() if r[3] & changed}
        for r in list(res.values()):
            for c in r[3]:
                if c not in res: dirty.add(c)
    return res, rounds
