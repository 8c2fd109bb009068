"""Every convenience member of a wrapper, container or allocator type, and every overload that shares an operation's name, is interpreted symbolically
with the library's operations as recorded primitives, and so is the operation it stands for: both must perform the same operations on the same object
with the same arguments in the same order, and return the same result.  Comparison, conversion, dereference and iteration operators are interpreted
against their definition.  A member that is declared but never defined is a violation."""
import os, re
import gx, astm
from absint import Interp, State, Rec, C0, C1, UND, is_c, is_addr
LEVEL = "exhaustive"
SRC = os.path.join(gx.VERIF, "lib", "members.cpp")
PREFIX = {"CodeFn": "fn", "CodeNS": "namespace", "CodeOpCast": "opcast", "CodeVar": "var", "CodeDefineParams": "define_params", "CodePreprocessCond": "preprocess", "HashTable": "hashtable",
          "CodeConstructor": "constructor", "CodeDestructor": "destructor", "StrBuilder": "strbuilder", "CodeExec": "exec", "CodeOperator": "code_op", "CodeUsing": "using"}
# members named differently from the operation they stand for
ALIAS = {"Arena::allocator_proc": None, "Pool::allocator_proc": None, "Str::is_equal": "are_equal", "StrBuilder::is_equal": "are_equal", "StrBuilder::begin": None, "StrBuilder::end": None}

def base(t):
    c = re.sub(r"\b(const|struct|class|enum)\b", "", t.get("c") or t.get("s") or "").replace("gen::", "")
    return re.sub(r"[&*\s]", "", c)
def sig1(F, p):
    """parameter type, a wrapper's reference and pointer forms unified"""
    t = F.type(p["t"]); b = base(t)
    return b if b.startswith("Code") or kname(b) in ("StrBuilder", "Array", "HashTable", "Str", "Arena", "Pool", "Builder") and (t.get("ref") or not star(t)) else b + "*" * (star(t) - (kname(b) in ("StrBuilder", "Array", "HashTable", "Arena", "Pool", "Builder", "FixedArena")))
def star(t): return (t.get("c") or "").count("*")

class Rcd(Interp):
    def __init__(self, F, ops):
        Interp.__init__(self, F, {}, max_iter=6, inline_depth=12)
        self.ops = ops; self.models = {}; self.max_states = 64
    def call(self, e, st):
        n = e.get("n")
        f = self.F.byid.get(e.get("id")) or self.ops.get(e.get("id"))
        if f is not None and f["id"] in self.ops:
            out = []
            for s, th, vs in self.bind(e, st, f):
                vs = tuple(("addr",) + v[1:] if type(v) is tuple and v and v[0] == "ref" else v for v in vs)
                s = s.clone(); log = s.x.get("log", ())
                s.x["log"] = log + ((f["n"] + ":" + str(len(f["ps"])), vs),)
                if f["n"] in ("log_fmt", "assert_handler"): out.append((s, C0)); continue
                out.append((s, self.result(s, f, len(log))))
            return out
        return Interp.call(self, e, st)
    def result(self, s, f, k):
        t = self.F.type(f["t"]); b = base(t)
        if b == "bool": return s.fresh("r%d" % k)
        if b.startswith("Code") and not star(t) and b in ("Code",) or (b.startswith("Code") and b[4:5].isupper() and not star(t)): return astm.code("ret%d" % k)
        if b == "StrBuilder" and not star(t): return Rec(C0, {"Data": astm.ptr("ret%d" % k)})
        if b.startswith("Array<") and not star(t): return Rec(C0, {"Data": astm.ptr("ret%d" % k)})
        return ("addr", ("H", "ret%d" % k), ())
    def fresh_rec(self): pass

def canon(v, names):
    """value with fresh symbols renamed in order of first appearance, wrappers around one pointer reduced to it"""
    if isinstance(v, Rec):
        ks = sorted(v.d)
        if ks in (["ast"], ["Data"]): return canon(v.d[ks[0]], names)
        return ("rec", tuple((k, canon(v.d[k], names)) for k in ks))
    if type(v) is tuple: return tuple(canon(x, names) if isinstance(x, (tuple, Rec)) else x for x in v)
    return v

def transparent(F, f):
    b = f["b"]
    ss = b.get("b", []) if b and b.get("k") == "blk" else []
    ss = [s for s in ss if s["k"] not in ("nop",)]
    if len(ss) != 1 or ss[0]["k"] not in ("ret", "expr"): return False
    e = ss[0].get("e")
    if e is None or any(x["k"] in ("cond", "bin", "asg", "mem", "idx") for x in gx.walk(e)): return False
    return any(x["k"] == "call" for x in gx.walk(e))

def symbol(F, st, p, i, ref_as_ptr):
    t = F.type(p["t"]); b = base(t); name = "arg%d" % i
    root = ("H", name)
    if t.get("ref") and b in ("StrBuilder", "Code") or re.match("Code[A-Z]", b) and t.get("ref"): st.mem[root] = Rec(C0, {"Data": astm.ptr(name)}) if b == "StrBuilder" else astm.code(name)
    if t.get("ref") or (star(t) and (b.startswith("Code") or b in ("StrBuilder",))):
        return ("ref" if t.get("ref") and not ref_as_ptr else "addr", root, ())
    if star(t): return ("addr", root, ())
    if b == "Code" or re.match(r"Code[A-Z]", b) and t.get("k") == "rec": return astm.code(name)
    if t.get("k") == "rec" and b in ("StrBuilder",) or b.startswith("Array<"): return Rec(C0, {"Data": astm.ptr(name)})
    return ("addr", root, ())

def selfval(K):
    if K in ("StrBuilder", "Array"): return Rec(C0, {"Data": astm.ptr("node")})
    if K.startswith("Code"): return astm.code("node")
    return Rec(("addr", ("H", "selfraw"), ()), {})

def kname(n): return re.sub(r"<.*>$", "", n)

def outcome(ip, f, st, args, this):
    try: outs = ip.run(f, args, st, this)
    except Exception as ex:
        if type(ex).__name__ in ("TooMany",): return None
        raise
    r = []
    for s, v in outs:
        if type(v) is tuple and v and v[0] == "refval": v = ("addr",) + v[1:]
        r.append((tuple(canon(x, None) for x in s.x.get("log", ())), canon(ip.devalue(s, v), None)))
    return sorted(set(r), key=repr)

def short(log): return "; ".join("%s(%s)" % (c.split(":")[0], ", ".join(arg(a) for a in vs)) for c, vs in log) or "no operation"
def arg(a):
    if type(a) is tuple and a and a[0] == "addr": return str(a[1][1]) if len(a[1]) > 1 and a[1][0] == "H" else "local"
    return "..." if not is_c(a) else str(a[1])

def candidates(F, frees, K, KT, M, ps):
    """the operations a member M(ps) of K may stand for, best first"""
    pre = PREFIX.get(K) or (re.sub(r"^Code", "", K) or K).lower()
    out = []
    for f in frees:
        n = kname(f["n"]); fp = f["ps"]
        rank = None
        if "<" in f["n"] and f["n"][f["n"].index("<"):] != (KT[KT.index("<"):] if "<" in KT else ""): continue
        for r, names in enumerate(((pre + "_" + M, M + "_" + K), (pre + "_" + M + "_ref",))):
            if n in names: rank = r
        if rank is None and n.startswith(pre + "_" + M + "_"): rank = 2
        if rank is None and K.startswith("Code") and n in ("code_" + M,): rank = 3
        if rank is None: continue
        fb = [sig1(F, p) for p in fp]
        mb = [sig1(F, p) for p in ps]
        if K.startswith("Code") and rank == 3: fs = fb[:1] == ["Code"]
        else: fs = fb[:1] == [KT] or fb[:1] == [K]
        if f.get("var"): continue
        if fs and len(fp) == len(ps) + 1: sig = fb[1:] == mb
        elif len(fp) == len(ps) and fb == mb and not fs: sig = True    # static members
        elif fs and n == M + "_" + K and len(fp) <= len(ps) + 1: sig = True
        else: continue
        out.append((not sig, rank, len(n), f))
    return [x[3] for x in sorted(out, key=lambda x: x[:3]) if not x[0]] or [x[3] for x in sorted(out, key=lambda x: x[:3])]

def run_pair(F, ops, f, g, K, member, static):
    """outcomes of member (or overload) f and operation g on the same symbols"""
    st = State(); st.mem[("H", "self")] = selfval(K)
    this = ("addr", ("H", "self"), ()) if member and not static else None
    margs = tuple(symbol(F, st, p, i, False) for i, p in enumerate(f["ps"]))
    ip = Rcd(F, ops)
    a = outcome(ip, f, st.clone(), margs, this)
    gargs = []
    src = list(f["ps"])
    off = 0
    if this is not None and len(g["ps"]) >= 1 and (len(g["ps"]) == len(f["ps"]) + 1 or not f["ps"]):
        p = g["ps"][0]; t = F.type(p["t"])
        gargs.append(("ref", ("H", "self"), ()) if t.get("ref") else ("addr", ("H", "self"), ()) if star(t) else selfval(K)); off = 1
    for i, p in enumerate(f["ps"]):
        j = i + off
        if j >= len(g["ps"]): break
        gargs.append(symbol(F, st, p, i, not F.type(g["ps"][j]["t"]).get("ref")))
    # (1) as a recorded call, (2) its body
    ip = Rcd(F, ops)
    if g["id"] in ops:
        s = st.clone(); k = 0
        vs = tuple(("addr",) + v[1:] if type(v) is tuple and v and v[0] == "ref" else v for v in gargs)
        b1 = [((canon((g["n"] + ":" + str(len(g["ps"])), vs), None),), canon(ip.result(s, g, 0), None))]
    else: b1 = outcome(ip, g, st.clone(), tuple(gargs), None)
    ip = Rcd(F, {k: v for k, v in ops.items() if k != g["id"]})
    void = base(F.type(f['t'])) == 'void'
    b2 = outcome(ip, g, st.clone(), tuple(gargs), None) if F.byid.get(g["id"]) and norm_ret(a, void) != norm_ret(b1, void) else None
    return a, b1, b2

def norm_ret(o, void):
    return [(l, None if void else "sym" if type(v) is tuple and v and v[0] not in ("addr", "c", "rec") else v) for l, v in o] if o is not None else None

def check(rep):
    F = gx.extract("base", SRC)
    frees = [f for f in F.functions if not f.get("rec") and "::" not in f["n"]]
    declfree = [f for f in F.decls if not f.get("rec") and f["n"] not in F.byname]
    ops = {f["id"]: f for f in frees if not transparent(F, f)}
    for f in declfree: ops[f["id"]] = f
    WR = [k for k in F.records if k == "Code" or re.match(r"Code[A-Z]", k)] + ["Array", "HashTable", "Str", "StrBuilder", "Arena", "Pool", "Builder", "AllocatorInfo", "FixedArena"]
    undefined = {f["n"] for f in declfree if F.file(f["l"]).startswith("base/")}
    checked = 0; over = 0; classes = set(); undecided = []
    seen = set()
    for f in F.functions:
        rec = f.get("rec")
        if not rec: continue
        full = f["n"]; KT, _, M = full.rpartition("::"); K = kname(rec)
        if K not in WR or M.startswith("operator") or "operator " in full: continue
        if M in ("begin", "end") and K in ("Array",): continue
        if ALIAS.get(K + "::" + M, 0) is None: continue
        kt = KT.replace("gen::", "").replace(" ", "")
        alias = ALIAS.get(K + "::" + M)
        if any(x.get("var") for x in (f,)): continue       # variadic members format by themselves: P03, P24
        cands = candidates(F, frees, K, kt, alias or M, f["ps"])
        sigk = "%s::%s(%s)" % (K, M, ", ".join(sig1(F, p) for p in f["ps"]))
        if sigk in seen: continue
        seen.add(sigk)
        if not cands: undecided.append(sigk); continue
        pre = PREFIX.get(K) or (re.sub(r"^Code", "", K) or K).lower()
        alts = [cands[0]] + [g for g in frees if g is not cands[0] and g["n"] == pre + "_" + M and len(g["ps"]) == len(f["ps"]) + 1 and all(sig1(F, q).startswith("Code") and sig1(F, p).startswith("Code") or sig1(F, q) == sig1(F, p) for q, p in zip(g["ps"][1:], f["ps"]))]
        good = False; first = None
        for g in alts:
            a, b1, b2 = run_pair(F, ops, f, g, K, True, bool(f.get("smeth")))
            void = base(F.type(f["t"])) == "void" or base(F.type(g["t"])) == "void"
            na, n1, n2 = norm_ret(a, void), norm_ret(b1, void), norm_ret(b2, void)
            first = first or (a, b1)
            if na is not None and na in (n1, n2): good = True
        checked += 1; classes.add(K)
        undef = sorted({c.rpartition(":")[0] for l, v in (a or []) for c, vs in l} & undefined)
        if undef: rep.bad("undefined:" + sigk, F.at(f["l"]), "forwarding", "%s performs %s, which is declared but never defined" % (sigk, undef[0]))
        elif good: rep.ok(); rep.sample("%s -> %s" % (sigk, cands[0]["n"]))
        else: rep.bad("member:" + sigk, F.at(f["l"]), "forwarding", "%s stands for %s but performs [%s] instead of [%s]" % (sigk, cands[0]["n"], " / ".join(short(l) for l, v in (first[0] or [])) or "nothing decided", " / ".join(short(l) for l, v in (first[1] or []))))
    # overloads: a free function that shares its name with other overloads and whose first parameter is one of the types
    for f in frees:
        M = f["n"]
        if len(F.byname[M]) < 2 or f.get("var") or not f["ps"]: continue
        KT = base(F.type(f["ps"][0]["t"])); K = kname(KT)
        if K not in WR: continue
        cands = [g for g in candidates(F, frees, K, KT, M, f["ps"][1:]) if g["id"] != f["id"] and len(g["ps"]) == len(f["ps"])]
        sigk = "%s(%s)" % (M, ", ".join(base(F.type(p["t"])) for p in f["ps"]))
        if not cands: undecided.append(sigk); continue
        g = cands[0]
        a, b1, b2 = run_pair(F, ops, f, g, K, False, False)
        void = base(F.type(f["t"])) == "void"
        over += 1
        if norm_ret(a, void) is not None and norm_ret(a, void) in (norm_ret(b1, void), norm_ret(b2, void)): rep.ok()
        else: rep.bad("overload:" + sigk, F.at(f["l"]), "forwarding", "overload %s stands for %s but performs [%s] instead of [%s]" % (sigk, g["n"], " / ".join(short(l) for l, v in (a or [])), " / ".join(short(l) for l, v in (b1 or []))))
    # declared, never defined
    defd = {f["n"] for f in F.functions}
    for f in F.decls:
        if not f.get("rec") or f["n"] in defd: continue
        K = kname(f["rec"])
        if K not in WR or "<" in f["n"]: continue
        M = f["n"].rpartition("::")[2]
        if M.startswith("operator") or M == K or M.startswith("~"): continue
        rep.bad("undefined:" + f["n"], F.at(f["l"]), "forwarding", "member %s is declared but never defined" % f["n"])
    nop = operators(F, rep, WR)
    rep.need("members compared with their operation", checked, 340)
    rep.need("overloads compared with their operation", over, 85)
    rep.need("operators interpreted", nop, 600)
    rep.need("types with members", len(classes), 36)
    rep.cov["members without a counterpart (not part of the rule)"] = undecided

def operators(F, rep, WR):
    n = 0
    gname = {g["n"]: g["id"] for g in F.gid.values()}
    for f in F.functions:
        # the casters behind InvalidCode and NullCode give the invalid node and no node, for every type
        if f.get("rec") not in ("InvalidCode_ImplictCaster", "NullCode_ImplicitCaster") or "::operator " not in f["n"]: continue
        ip = Interp(F, {}, max_iter=4, inline_depth=8); st = State(); st.mem[("G", gname["Code_Invalid"])] = astm.code("INVALID"); st.mem[("H", "self")] = Rec(C0, {})
        want = "INVALID" if f["rec"].startswith("Invalid") else None; n += 1
        r = [ip.devalue(s, v) for s, v in ip.run(f, (), st, ("addr", ("H", "self"), ()))]
        v = r[0].d.get("ast", r[0]) if r and isinstance(r[0], Rec) else r[0] if r else None
        if len(r) != 1 or (astm.objname(v) != want) or want is None and v != C0: rep.bad("operator:%s" % f["n"].split("::", 1)[0] + f["n"].rpartition("::")[2], F.at(f["l"]), "operators", "%s gives %s" % (f["n"], r))
        else: rep.ok()
    for f in F.functions:
        rec = f.get("rec")
        if not rec or "operator" not in f["n"]: continue
        K = kname(rec)
        if not (K == "Code" or re.match(r"Code[A-Z]", K)): continue
        M = f["n"].split("::", 1)[1]; ps = f["ps"]
        ip = Interp(F, {k: astm.TextInterp.m_nop for k in ("assert_handler", "assert_crash")}, max_iter=6, inline_depth=8)
        def case(selfp, args=()):
            st = State(); st.mem[("H", "self")] = astm.wrap(selfp)
            for nm, nx in (("N1", "N2"), ("N2", None)):
                d = {astm.fkey(F, "Next"): astm.code(nx) if nx else astm.NULLCODE}
                st.mem[("H", nm)] = Rec(C0, d)
            outs = ip.run(f, args, st, ("addr", ("H", "self"), ()))
            r = []
            for s, v in outs:
                r.append((ip.devalue(s, v), s.mem[("H", "self")]))
            return r
        def val(v):
            v = v.d.get("ast", v) if isinstance(v, Rec) else v
            return v
        P1, P2 = astm.ptr("N1"), astm.ptr("N2")
        bad = None
        isptr = ps and "nullptr" in (F.type(ps[0]["t"]).get("c") or "")
        if M in ("operator==", "operator!="):
            eq = M.endswith("==")
            for a in (P1, C0):
                for b in ((C0,) if isptr else (P1, P2, C0)):
                    r = case(a, (C0,) if isptr else (astm.wrap(b),)); n += 1
                    want = ("c", int((a == b) == eq))
                    if len(r) != 1 or r[0][0] != want: bad = "%s of %s and %s gives %s" % (M, a, b, [x[0] for x in r])
        elif M == "operator bool":
            for a in (P1, C0):
                r = case(a); n += 1
                if len(r) != 1 or r[0][0] != ("c", int(a != C0)): bad = "%s gives %s" % (a, [x[0] for x in r])
        elif M.startswith("operator Code") or M in ("operator*",):
            for a in (P1, C0):
                r = case(a); n += 1
                if len(r) != 1 or val(r[0][0]) != a: bad = "gives another node: %s" % ([x[0] for x in r],)
        elif M == "operator->":
            r = case(P1); n += 1
            if len(r) != 1 or val(r[0][0]) != P1: bad = "gives another node: %s" % ([x[0] for x in r],)
        elif M == "operator++" and K != "CodeSpecifiers":
            for a, w in ((P1, P2), (P2, C0)):
                r = case(a); n += 1
                if len(r) != 1 or val(r[0][1]) != w: bad = "does not step to the next entry: %s" % ([x[1] for x in r],)
        elif M == "operator=" and ps:
            for a in (P1, C0):
                src = astm.wrap(P2) if not isptr else C0
                stt = State(); stt.mem[("H", "N2")] = Rec(C0, {}); stt.mem[("H", "self")] = astm.wrap(a)
                t = F.type(ps[0]["t"])
                argv = ("ref", ("H", "src"), ()) if t.get("ref") else src
                stt.mem[("H", "src")] = src
                r = [(s.mem[("H", "self")], s) for s, v in ip.run(f, (argv,), stt, ("addr", ("H", "self"), ()))]; n += 1
                if len(r) != 1 or not (val(r[0][0]) == P2 or astm.objname(r[0][0]) not in (None, "N1")): bad = "does not assign: %s" % ([x[0] for x in r],)
        else: continue
        if bad: rep.bad("operator:%s::%s" % (K, M), F.at(f["l"]), "operators", bad)
        else: rep.ok()
    return n
