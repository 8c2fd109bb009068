"""Absent components: the diagnostic description of a node is interpreted once per node kind with every component absent or present; each dereference of a
component, and each component handed to a function that dereferences its argument, must be guarded by a test of that component on the path.  The serializers
are interpreted for every presence combination of the optional components of every node kind; no path may dereference an absent one."""
import gx, absint, serial, p07
from absint import Interp, State, Rec, C0, C1, UND, is_c, is_addr
LEVEL = "exhaustive"
NEED = {"code_debug_str", "code_to_strbuilder", "code_type_str", "code_to_strbuilder_ref", "code_to_strbuilder_ptr"}      # dereference their argument

class NI(Interp):
    def __init__(self, F, root):
        Interp.__init__(self, F, max_iter=2, inline_depth=6); self.budget = 30_000_000; self.root = root; self.bad = {}; self.n = 0
        M = self.models
        for n in F.byname:
            if n.startswith(("strbuilder_", "c_str_")): M[n] = NI.m_any
            elif n in NEED or n.endswith(("_to_strbuilder", "_to_strbuilder_ref", "_to_strbuilder_ptr")): M[n] = NI.m_need
        for n in ("operator_to_str", "spec_to_str", "module_flag_to_str", "access_spec_to_str", "codetype_to_str", "codetype_to_keyword_str", "log_fmt", "assert_handler", "str_are_equal", "cache_str", "process_exit"):
            M[n] = NI.m_any
        self.ptrs = {}
    def m_any(self, e, st): return [(s, ("any", id(e))) for s, vs in self.evargs(e["a"], st)]
    def component(self, v):
        """the component a pointer stands for: node.field"""
        v0 = v
        while isinstance(v, Rec) and "ast" in v.d: v = v.d["ast"]
        if type(v) is tuple and v and v[0] == "fld" and v[2] == "ast": v = v[1]
        return v
    def name(self, v):
        if type(v) is tuple:
            if v[0] == "param": return v[1]
            if v[0] == "fld":
                f = v[2]
                if type(f) is str and f.startswith("@"): f = self.fname.get(f, f)
                return "%s%s" % (self.name(v[1]), "" if f == "ast" else "->" + str(f))
            if v[0] == "mem": return self.name(v[1])
        return "?"
    def suspicious(self, st, v):
        v = self.devalue(st, v)
        v = self.component(v)
        if isinstance(v, Rec): return None
        if v == C0: return "null"
        if type(v) is not tuple or v[0] != "fld": return None
        if "param" not in repr(v): return None
        if v[1][0] == "param": return None
        for t in (v, ("fld", v, "ast")):
            if not self.getdom(st, t).has(0): return None
        return self.name(v)
    def report(self, l, what, how): self.bad.setdefault((self.root, what), (l, how))
    def on_null(self, st, node, val, what):
        self.n += 1; self.report(node["l"], "null", "a null pointer is dereferenced")
    def on_maybe_null(self, st, node, val, what):
        self.n += 1
        w = self.suspicious(st, val)
        if w: self.report(node["l"], w, "%s is dereferenced on a path where it may be absent" % w)
        return [st]
    def m_need(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            self.n += 1
            if vs and not self.getdom_ok(s, vs[0]): pass
            w = self.suspicious(s, vs[0]) if vs else None
            if w: self.report(e["l"], w, "%s is handed to %s on a path where it may be absent" % (w, e["n"]))
            out.append((s, ("any", id(e))))
        return out
    def getdom_ok(self, s, v): return True

def setup(F, ip):
    ip.fname = {}
    for f in F.records["AST"]["f"]: ip.fname.setdefault("@%d:%d" % (f["off"], f["size"]), f["n"])
    for r in F.records:
        if r.startswith("AST_"):
            for f in F.records[r]["f"]: ip.fname.setdefault("@%d:%d" % (f["off"], f["size"]), f["n"])

def one(job):
    cfg, fn, kind = job
    F = gx.extract(cfg); f = F.fn(fn)
    ip = NI(F, fn + ":" + kind); setup(F, ip); st = State()
    if kind in ("", None): pass
    vs = []
    for p in f["ps"]:
        vs.append(("param", p["n"]))
    TYPE = next("@%d:%d" % (x["off"], x["size"]) for x in F.records["AST"]["f"] if x["n"] == "Type")
    if kind:
        root = ("P", ("param", f["ps"][0]["n"])); node = ("mem", ("param", "node"))
        st.mem[("H", "node")] = Rec(("mem", ("param", "node")), {TYPE: ("c", F.enumvals("CodeType")[kind])})
        vs[0] = Rec(C0, {"ast": ("addr", ("H", "node"), ())}) if F.type(f["ps"][0]["t"])["k"] != "ptr" else ("addr", ("H", "node"), ())
        ip.models.pop(fn, None)
        me = f["id"]
        inner = NI.m_need
        def entry(self, e, st2): return inner(self, e, st2)
        ip.models[fn] = entry
    try:
        ip.invoke(f, st, tuple(vs))
    except absint.TooMany: return fn, kind, -1, {}
    return fn, kind, ip.n, ip.bad

def check(rep):
    cfg = "nofatal"; F = gx.extract(cfg); tot = 0; fail = []
    kinds = [k for k in F.enumvals("CodeType") if k not in ("CT_NumTypes", "CT_UnderlyingType")]
    jobs = [(cfg, "code_debug_str", k) for k in kinds]
    for fn, kind, n, bad in gx.pmap(one, jobs):
        if n < 0: fail.append(kind); continue
        tot += n; rep.ok(n); rep.sample({"function": fn, "kind": kind, "dereferences": n})
        for (r, w), (l, d) in bad.items(): rep.bad("%s:%s:%s" % (fn, kind, w), F.at(l), "absent component dereferenced", "%s of a %s: %s" % (fn, kind, d))
    if fail: raise gx.AnalysisBroken("too many paths: %s" % fail)
    rep.need("dereferences in descriptions", tot, 200)
    jobs = []
    for k in serial.KINDS:
        parts = max(1, min(8, len(list(k.combos())) // 150))
        jobs += [(cfg, k.name, p, parts) for p in range(parts)]
    comb = 0
    for kn, n, bad in gx.pmap(ser, jobs):
        comb += n; rep.ok(n - len(bad))
        for x, where, what in bad:
            k = next(k for k in serial.KINDS if k.name == kn); f = F.fn(p07.entry_points(F, k)[0])
            feats = ",".join("%s=%s" % (a, b) for a, b in x.items() if b not in (0, None, "none"))
            rep.bad("%s:%s" % (where, what), F.at(f), "absent component dereferenced", "serializing a %s with {%s}: null dereference of %s in %s" % (k.tag, feats, what, where))
    rep.need("serializer combinations", comb, 8000)

def ser(job):
    cfg, kn, part, parts = job
    F = gx.extract(cfg); k = next(k for k in serial.KINDS if k.name == kn); n = 0; bad = []
    for i, x in enumerate(k.combos()):
        if i % parts != part: continue
        n += 1
        for en in p07.entry_points(F, k)[:1]:
            outs, nulls, aborts, vis = serial.run(F, k, x, en)
            if nulls: bad.append((x, nulls[0][2], nulls[0][1]))
    return kn, n, bad
