"""For every node kind two nodes with the same components are compared (must be equal), and then one component at a time is made to differ: text
changed, child's content changed, present on one side only, another entry count, another flag value; the comparison must then be false in both
operand orders.  The comparison routine is interpreted abstractly over this heap model, following its recursion into children.  Comments are
excluded: the library documents that they are not compared."""
import gx, serial, astm, absint
from absint import State, Rec, C0, UND, is_c, is_addr
from astm import Obj, mkstr, fkey, wrap, ptr, code, NULLCODE
LEVEL = "bounded"

class EqInterp(astm.TextInterp):
    def __init__(self, F):
        astm.TextInterp.__init__(self, F, {"code_debug_str": EqInterp.m_dbg, "str_visualize_whitespace": EqInterp.m_dbg}, max_iter=64, inline_depth=40)
        self.nulls = []
    def m_dbg(self, e, st): return [(st, mkstr("dbg"))]
    def on_null(self, st, node, val, what): self.nulls.append((what, self.F.byid[self.stack[-1]]["n"] if self.stack else "?"))
    rec_depth = 12     # recursion into children is followed to the bottom of the (finite, acyclic) heap

def rename(v, pre):
    if isinstance(v, Rec): return Rec(rename(v.base, pre), {k: rename(x, pre) for k, x in v.d.items()})
    if is_addr(v) and v[1][0] == "H": return ("addr", ("H", pre + v[1][1]), v[2])
    return v

def build(F, k, x):
    st = State(); o = Obj(F, "self", k.tag); k.build(F, st, x, o); o.put(st)
    inv = {v: n for n, v in F.enumvals("CodeType").items()}
    # give every child something to differ in
    for root in list(st.mem):
        n = root[1]; r = st.mem[root]
        if n in ("self", "InlineCmt", "OwnerBody", "Owner", "ParentNode", "BodyOwner"): continue
        t = inv.get(r.d.get(fkey(F, "Type"), C0)[1], "")
        d = dict(r.d)
        if t.endswith("_Body"):
            en = Obj(F, n + ".entry", "CT_Untyped", Content="\u27e8%s.entry\u27e9" % n)
            en.set("Parent", code(n)); en.put(st)
            d[fkey(F, "Front")] = code(n + ".entry"); d[fkey(F, "Back")] = code(n + ".entry"); d[fkey(F, "NumEntries")] = ("c", 1)
        elif t in ("CT_Untyped", "CT_PlatformAttributes"): d[fkey(F, "Content")] = mkstr("\u27e8%s\u27e9" % n)
        elif t == "CT_Specifiers": 
            if d.get(fkey(F, "NumEntries"), C0) == C0 or fkey(F, "ArrSpecs") not in d:
                d[fkey(F, "NumEntries")] = ("c", 1); d[fkey(F, "ArrSpecs")] = Rec(C0, {("i", C0): ("c", F.enumvals("Specifier")["Spec_Const"])})
        elif t in ("CT_NewLine",):
            d[fkey(F, "Type")] = ("c", F.enumvals("CodeType")["CT_Untyped"]); d[fkey(F, "Content")] = mkstr("\u27e8%s\u27e9" % n)
        else: d[fkey(F, "Name")] = mkstr("\u27e8%s\u27e9" % n)
        st.mem[root] = Rec(r.base, d)
    # a node whose links a kind's builder leaves out is not part of any list
    for root, r in list(st.mem.items()):
        d = dict(r.d)
        for f in ("Prev", "Next"): d.setdefault(fkey(F, f), NULLCODE)
        st.mem[root] = Rec(r.base, d)
    return st

def mutants(F, k, x):
    """yield (component, state) for single-component differences against build(F,k,x)"""
    A = build(F, k, x)
    inv = {v: n for n, v in F.enumvals("CodeType").items()}
    # 1. text and child content
    for root, r in A.mem.items():
        n = root[1]
        if n in ("InlineCmt", "OwnerBody", "Owner", "ParentNode", "BodyOwner"): continue
        t = inv.get(r.d.get(fkey(F, "Type"), C0)[1], "")
        def mk(key, val):
            s = A.clone(); d = dict(r.d); d[key] = val; s.mem[root] = Rec(r.base, d); return s
        nk, ck = fkey(F, "Name"), fkey(F, "Content")
        if t == "CT_Specifiers":
            a = r.d.get(fkey(F, "ArrSpecs"))
            if isinstance(a, Rec) and a.d:
                d2 = dict(a.d); last = max(d2, key=lambda q: q[1][1]); d2[last] = ("c", F.enumvals("Specifier")["Spec_Mutable"])
                yield "%s:element" % n, mk(fkey(F, "ArrSpecs"), Rec(C0, d2))
                cnt = r.d[fkey(F, "NumEntries")][1]
                s = mk(fkey(F, "NumEntries"), ("c", cnt + 1)); dd = dict(s.mem[root].d); d3 = dict(a.d); d3[("i", ("c", cnt))] = ("c", F.enumvals("Specifier")["Spec_Mutable"]); dd[fkey(F, "ArrSpecs")] = Rec(C0, d3); s.mem[root] = Rec(C0, dd)
                yield "%s:count" % n, s
            continue
        if t in ("CT_Untyped", "CT_Execution", "CT_PlatformAttributes", "CT_Preprocess_If", "CT_Preprocess_IfDef", "CT_Preprocess_IfNotDef", "CT_Preprocess_ElIf", "CT_Preprocess_Include", "CT_Preprocess_Pragma"):
            v = r.d.get(ck)
            if isinstance(v, Rec): yield "%s:text" % n, mk(ck, mkstr(v.d["Ptr"][1][:-1] + "'\u27e9"))
        elif nk in r.d and isinstance(r.d[nk], Rec) and not t.startswith("CT_Access") and not t.endswith("_Body"):
            p = r.d[nk].d["Ptr"]
            if p != C0 and p[1]: yield "%s:name" % n, mk(nk, mkstr(p[1][:-1] + "'\u27e9"))
    # 2. features: every other value of every dimension
    for dim, vals in k.dims.items():
        if dim in ("InlineCmt", "parent", "owner", "ukind", "dk", "bodykind") or (k.tag == "CT_Comment"): continue
        if k.tag.startswith("CT_Access"): continue
        for v in vals:
            if v == x[dim]: continue
            y = dict(x); y[dim] = v
            if k.valid is not None and not k.valid(y): continue
            yield "%s=%s/%s" % (dim, x[dim], v), build(F, k, y)

def compare(F, A, B):
    ip = EqInterp(F); st = State()
    for pre, s in (("A.", A), ("B.", B)):
        for root, v in s.mem.items(): st.mem[("H", pre + root[1])] = rename(v, pre)
    vals = set()
    for s, v in ip.run("code_is_equal", (wrap(ptr("A.self")), wrap(ptr("B.self"))), st): vals.add(v)
    return vals, ip

def choose(k, thorough):
    xs = [x for x in k.combos() if not x.get("InlineCmt") and x.get("parent", "none") in ("none", "CT_Variable" if k.name == "variable_next" else "none") and not x.get("owner")]
    if not xs: xs = list(k.combos())
    key = lambda x: (sum(1 for v in x.values() if v not in (0, None, "none", [])), sum(v if isinstance(v, int) else len(v) if isinstance(v, list) else 0 for v in x.values()))
    s = sorted(xs, key=key)
    pick = [s[-1], s[0], s[max(0, len(s) - 2)]] + ([s[len(s) // 2], s[len(s) // 3]] if thorough else [])
    # a maximal combination for every value of every dimension: each component is exercised with everything else present
    for dim, vals in k.dims.items():
        for v in vals:
            c = [x for x in s if x[dim] == v]
            if c: pick.append(c[-1])
    out = []
    for x in pick:
        if x not in out: out.append(x)
    return out

def one(job):
    cfg, name, thorough = job
    F = gx.extract(cfg); k = next(k for k in serial.KINDS if k.name == name)
    n = 0; bad = []; comps = set()
    for x in choose(k, thorough):
        A = build(F, k, x)
        v, ip = compare(F, A, build(F, k, x)); n += 1
        if v != {("c", 1)}: bad.append(("equal", x, "two nodes with the same components compare %s" % desc(v, ip)))
        elif ip.nulls: bad.append(("null", x, "null dereference of %s in %s" % ip.nulls[0]))
        if k.tag == "CT_Comment": continue
        for comp, B in mutants(F, k, x):
            comps.add(comp)
            for p, q, o in ((A, B, "first"), (B, A, "second")):
                v, ip = compare(F, p, q); n += 1
                if v != {C0}: bad.append((comp.split("=")[0], x, "nodes differing in %s compare %s (operand order %s)" % (comp, desc(v, ip), o)))
                elif ip.nulls: bad.append(("null:" + comp.split("=")[0], x, "null dereference of %s in %s when %s differs" % (ip.nulls[0] + (comp,))))
    return name, n, bad, sorted(comps)
def desc(v, ip):
    if not v: return "with a null dereference or an abort %s" % (ip.nulls[:1],)
    return "/".join({("c", 0): "unequal", ("c", 1): "equal"}.get(x, "undetermined") for x in sorted(v, key=str))

def check(rep):
    for cfg in ["base"] + (["nofatal", "cpp"] if rep.tier == "thorough" else []):
        F = gx.extract(cfg); F.fn("code_is_equal"); tot = 0
        for name, n, bad, comps in gx.pmap(one, [(cfg, k.name, rep.tier == "thorough") for k in serial.KINDS]):
            tot += n; rep.ok(n - len(bad))
            for comp, x, d in bad:
                rep.bad("%s:%s" % (name, comp), F.at(F.fn("code_is_equal")), "equality", "%s: %s" % (name, d))
            rep.sample({"kind": name, "components": comps})
        rep.need("comparisons %s" % cfg, tot, 2000)
    rep.need("kinds", len(serial.KINDS), 60)
