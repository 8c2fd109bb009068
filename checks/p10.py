"""Every construction function is interpreted for every presence combination of its arguments; the resulting node must carry the construct's tag and
hold each supplied argument in its component, and nothing in the components whose argument is absent.  Operators, comments, includes,
preprocessor conditions, specifier lists and macro registration have their own tables."""
import itertools
import gx, upf, astm
from absint import Rec, C0, is_c
from astm import mkstr, fkey, wrap, ptr, code, objname, NULLCODE, NULLSTR, Obj
from upf import A, C, node
LEVEL = "exhaustive"

SLOTS = ["Attributes", "Specs", "Params", "Body", "ParentType", "InitializerList", "UnderlyingType", "UnderlyingTypeMacro", "ReturnType", "ValueType", "Value", "Declaration", "ArrExpr", "Name", "Content", "ModuleFlags",
         "ParentAccess", "TypeTag", "NumEntries", "BitfieldSize", "NextVar", "Macro", "PostNameMacro", "SuffixSpecs", "Front", "Back", "Next", "Prev"]

def strv(ip, st, v):
    if isinstance(v, Rec) and "Ptr" in v.d: return ip.text_of_str(st, v)
    if v == C0 or v == NULLSTR: return "(null)"
    return "?%s" % (v,)

def field(ip, st, obj, f):
    F = ip.F
    rec = st.mem[("H", obj)]
    k = fkey(F, f)
    return rec.d.get(k, C0) if isinstance(rec, Rec) else ip.project(rec, k)

def show(v):
    if isinstance(v, Rec): return objname(v) or v.d.get("Ptr", v.d.get("ast", "?"))
    return v

def combos(c):
    args = [a for a in c.all() if not a.req]
    for vs in itertools.product(*[(0, 1, 2) if a.kind == "arr" else (0, 1) for a in args]):
        p = dict(zip([a.name for a in args], vs))
        for a in c.all():
            if a.req: p[a.name] = 1
        yield p

def expected(F, c, p, kinds):
    """component -> expected object name / text / int; absent components are not listed"""
    inv = F.enumvals("CodeType"); e = {"Type": inv[c.tag(p)]}
    for a in c.all():
        if a.slot and p.get(a.name):
            e[a.slot] = "\u27e8%s\u27e9" % a.name if a.kind == "str" else ("obj", a.name) if a.kind == "code" else a.vals[0]
    fn = c.fn
    if fn == "def_function": e["ReturnType"] = ("obj", "ret_type" if p.get("ret_type") else "t_void")
    if fn == "def_enum":
        if p.get("type"): e["UnderlyingType"] = ("obj", "type")
        elif p.get("type_macro"): e["UnderlyingTypeMacro"] = ("obj", "type_macro")
    if fn == "def_param": e["NumEntries"] = 1
    if fn in ("def_class", "def_struct") and p.get("interfaces"): e["ParentAccess"] = F.enumvals("AccessSpec")["AccessSpec_Public"]
    if fn == "def_include": e["Content"] = "<\u27e8path\u27e9>" if p.get("foreign") else "\"\u27e8path\u27e9\""
    return e

def verify(ip, st, n, e, ignore):
    F = ip.F; out = []
    seen = {}
    for f in e: seen[fkey(F, f)] = f
    if field(ip, st, n, "Type") != ("c", e["Type"]):
        inv = {v: k for k, v in F.enumvals("CodeType").items()}
        out.append(("Type", "tagged %s instead of %s" % (inv.get(field(ip, st, n, "Type")[1], "?"), inv[e["Type"]])))
    for f, want in e.items():
        if f == "Type": continue
        v = field(ip, st, n, f)
        if isinstance(want, str): good = strv(ip, st, v) == want; got = strv(ip, st, v)
        elif isinstance(want, tuple): good = objname(v) == want[1]; got = show(v)
        else: good = v == ("c", want); got = show(v)
        if not good: out.append((f, "component %s is %s instead of %s" % (f, got if got not in (C0, None) else "empty", want[1] if isinstance(want, tuple) else want)))
    for f in SLOTS:
        k = fkey(F, f)
        if k in seen or f in ignore: continue
        v = field(ip, st, n, f)
        # a slot shared with an expected component at another size overlaps it
        if any(overlap(k, q) for q in seen): continue
        if v not in (C0, NULLCODE, NULLSTR) and not (f == "Name" and "Content" in e):
            out.append((f, "component %s is %s although it was not given" % (f, show(v))))
    return out
def overlap(a, b):
    (o1, s1), (o2, s2) = [tuple(int(x) for x in q[1:].split(":")) for q in (a, b)]
    return o1 < o2 + s2 and o2 < o1 + s1

def one(job):
    cfg, fn = job
    F = gx.extract(cfg); c = next(c for c in upf.TABLE if c.fn == fn)
    n = 0; bad = []
    for p in combos(c):
        kinds = {}
        if c.invalid(p, kinds):
            if fn == "def_typedef": kinds = {"type": "CT_Untyped"}
            else: continue
        if any(f(p) for f in c.skip): pass
        n += 1
        what = ", ".join("%s%s" % (k, "=%d" % v if v > 1 else "") for k, v in p.items() if v) or "no arguments"
        ip, outs = upf.call(F, c, p, kinds)
        if len(outs) != 1: bad.append(("paths", what, "%d outcomes" % len(outs))); continue
        st, v = outs[0]; o = objname(v)
        if not o or not o.startswith("new"): bad.append(("result", what, "no node returned")); continue
        e = expected(F, c, p, kinds)
        if fn == "def_typedef" and not p.get("name"): e["Name"] = "\u27e8type\u27e9"; e["IsFunction"] = 1
        ignore = {f for f in SLOTS if overlap(fkey(F, f), fkey(F, "Body"))} if fn == "def_define" else set()
        if fn in ("def_class", "def_struct") and p.get("interfaces"):
            # the interfaces are appended to the chain of parent types
            want = (["parent"] if p.get("parent") else []) + ["iface%d" % i for i in range(p["interfaces"])]
            cur = field(ip, st, o, "ParentType"); chain = []
            while objname(cur) and len(chain) < 6:
                # the chain may hold copies: an entry is known by its name
                nm = strv(ip, st, field(ip, st, objname(cur), "Name")).strip("\u27e8\u27e9")
                lab = objname(cur) if not objname(cur).startswith("new") else "parent" if nm == "(null)" else nm
                chain.append(lab); cur = st.mem[("H", objname(cur))].d.get(fkey(F, "Next"), C0)
            if chain[:1] == want[:1]: e["ParentType"] = ("obj", objname(field(ip, st, o, "ParentType")))
            if chain != want: bad.append(("interfaces", what, "parent types are %s instead of %s" % (chain, want)))
        for f, d in verify(ip, st, o, e, ignore): bad.append((f, what, d))
        if fn in ("def_class", "def_struct", "def_union") and p.get("body"):
            # constructors and destructors inside the body are spelled with the enclosing type's name
            q = st.mem[("H", "body")].d.get(fkey(F, "Parent"), C0)
            if objname(q) != o: bad.append(("Body.Parent", what, "the body is not linked to its owner"))
        if fn == "def_define":
            b = field(ip, st, o, "Body"); bt = strv(ip, st, field(ip, st, objname(b), "Content")) if objname(b) else "(no body)"
            want = "\u27e8content\u27e9\n" if p.get("content") else "\n"
            if bt != want: bad.append(("Body", what, "replacement text is %r instead of %r" % (bt, want)))
            ms = st.x.get("macros", ())
            if p.get("dont_register_to_preprocess_macros"):
                if ms: bad.append(("registration", what, "registered although declined"))
            elif len(ms) != 1: bad.append(("registration", what, "registered %d times" % len(ms)))
            else:
                m = ms[0].d
                if strv(ip, st, m["Name"]) != "\u27e8name\u27e9" or m["Type"] != ("c", 2 if p.get("type") else 0) or m["Flags"] != ("c", 5 if p.get("flags") else 0):
                    bad.append(("registration", what, "registered with other name, type or flags than given"))
        if fn == "def_typedef" and p.get("attributes") and not any(objname(x) == "attributes" for x in st.mem[("H", o)].d.values()):
            bad.append(("attributes", what, "the attributes are not stored"))
    return fn, n, bad

# ---- operators
def op_rule(op, np, first, second, ret):
    """expected verdict for operator `op` with np parameters (first parameter's type equal to the return type / int / other; second likewise): 'member',
    'global', 'reject' or None when the library leaves it open"""
    n = op[3:]
    if n == "Invalid": return "reject"
    if n == "Assign": return "member" if np == 1 else "reject"
    if n.startswith("Assign_"): return "reject" if np in (0, 3) else "member" if np == 1 else "global" if first == "ret" else "reject"
    if n in ("Increment", "Decrement"):
        if np == 0: return "member"
        if np == 1: return "member" if first == "int" else "global" if first == "ret" else "reject"
        if np == 2: return "global" if first == "ret" and second == "int" else "reject"
        return "reject"
    if n in ("Unary_Plus", "Unary_Minus", "BNot"): return {0: "member", 1: "global"}.get(np, "reject")
    if n in ("Add", "Subtract", "Multiply", "Divide", "Modulo", "BAnd", "BOr", "BXOr", "LShift", "RShift", "LAnd", "LOr", "LEqual", "LNot", "Lesser", "Greater", "LesserEqual", "GreaterEqual"):
        return {1: "member", 2: "global"}.get(np, "reject")
    if n == "UnaryNot": return {0: "member", 1: "global"}.get(np, "reject") if ret == "bool" else "reject"
    if n in ("Indirection", "AddressOf"): return {0: "member", 1: "global"}.get(np, "reject")
    if n == "MemberOfPointer": return "member" if np == 0 else "reject" if np > 1 else None
    if n == "Subscript": return "reject" if np == 0 else "member"
    if n == "FunctionCall": return "member"
    if n in ("Comma", "PtrToMemOfPtr"): return {1: "member", 2: "global"}.get(np, "reject")
    return None

def one_op(job):
    cfg, op = job
    F = gx.extract(cfg); n = 0; bad = []
    opv = F.enumvals("Operator")[op]
    texts = astm.ORACLE["EOperator"]
    for np in range(4):
        for first in (("ret", "int", "other") if np else ("-",)):
            for second in (("int", "other") if np > 1 else ("-",)):
                for ret in ("T", "bool", None):
                    for has in (0, 1):
                        for nsp in (0, 1):
                            ip = upf.UpfInterp(F); st = ip.base_state()
                            rt = NULLCODE if ret is None else code("t_bool") if ret == "bool" else node(F, st, "T", "CT_Typename")
                            node(F, st, "U", "CT_Typename")
                            tv = {"ret": code("T") if ret != "bool" else code("t_bool"), "int": code("t_int"), "other": code("U")}
                            node(F, st, "T", "CT_Typename")
                            for i in range(np):
                                o = Obj(F, "p%d" % i, "CT_Parameters", Name="p%d" % i, ValueType=tv[first if i == 0 else second if i == 1 else "other"])
                                if i == 0: o.set("NumEntries", np)
                                if i + 1 < np: o.set("Next", code("p%d" % (i + 1)))
                                if i == 0 and np > 1: o.set("Prev", code("p%d" % (np - 1)))   # Last
                                o.put(st)
                            params = code("p0") if np else NULLCODE
                            b = node(F, st, "body", "CT_Function_Body") if has else NULLCODE
                            opts = Rec(C0, {"params": params, "ret_type": rt, "body": b, "specifiers": node(F, st, "specifiers", "CT_Specifiers"), "attributes": node(F, st, "attributes", "CT_PlatformAttributes"), "mflags": ("c", 1)})
                            want = "reject" if ret is None else op_rule(op, np, first, second, ret)
                            what = "%s with %d parameters (first %s, second %s), return type %s%s" % (op, np, first, second, ret, ", body" if has else "")
                            outs = [(s, ip.devalue(s, v)) for s, v in ip.run("def_operator", (("c", opv), mkstr("N::") if nsp else NULLSTR, opts), st)]
                            n += 1
                            if ip.nulls: bad.append(("null", what, "null dereference of %s in %s" % ip.nulls[0])); continue
                            if want is None: continue
                            for s, v in outs:
                                o = objname(v)
                                if want == "reject":
                                    if o != "INVALID": bad.append(("verdict", what, "accepted"))
                                    continue
                                if not o or not o.startswith("new"): bad.append(("verdict", what, "refused")); continue
                                tag = "CT_Operator" + ("_Member" if want == "member" else "") + ("" if has else "_Fwd")
                                e = {"Type": F.enumvals("CodeType")[tag], "Name": ("N::" if nsp else "") + "operator " + texts[op[3:]] if op[3:] in texts else None,
                                     "Attributes": ("obj", "attributes"), "Specs": ("obj", "specifiers"), "ReturnType": ("obj", objname(rt)), "ModuleFlags": 1, "Op": opv}
                                if e["Name"] is None: e["Name"] = strv(ip, s, field(ip, s, o, "Name"))
                                if np: e["Params"] = ("obj", "p0")
                                if has: e["Body"] = ("obj", "body")
                                for f, d in verify(ip, s, o, e, set()): bad.append((f, what, d))
                            if not outs: bad.append(("verdict", what, "no result"))
    return op, n, bad

# ---- the remaining constructors
def misc(cfg):
    F = gx.extract(cfg); bad = []; n = 0
    def run(fn, args, prep=None):
        nonlocal n; n += 1
        ip = upf.UpfInterp(F); st = ip.base_state()
        if prep: prep(st)
        return ip, [(s, ip.devalue(s, v)) for s, v in ip.run(fn, args, st)]
    CTv = F.enumvals("CodeType")
    for en, tag in (("PreprocessCond_If", "CT_Preprocess_If"), ("PreprocessCond_IfDef", "CT_Preprocess_IfDef"), ("PreprocessCond_IfNotDef", "CT_Preprocess_IfNotDef"), ("PreprocessCond_ElIf", "CT_Preprocess_ElIf")):
        ip, outs = run("def_preprocess_cond", (("c", F.enumvals_flat(en)), mkstr("\u27e8expr\u27e9")))
        if len(outs) != 1 or not (objname(outs[0][1]) or "").startswith("new"): bad.append(("def_preprocess_cond:" + en, en, "no node returned")); continue
        for f, d in verify(ip, outs[0][0], objname(outs[0][1]), {"Type": CTv[tag], "Content": "\u27e8expr\u27e9"}, {"Name"}): bad.append(("def_preprocess_cond:" + f, en, d))
    sv = F.enumvals("Specifier"); vals = [v for k, v in sv.items() if k.startswith("Spec_") and k not in ("Spec_NumSpecifiers", "Spec_UnderlyingType")]
    cap = None
    for fld in F.records["AST"]["f"]: 
        if fld["n"] == "ArrSpecs": cap = fld["size"] // 4
    def speclist(ip, outs, want, fn):
        if len(outs) != 1 or not (objname(outs[0][1]) or "").startswith("new"): bad.append((fn, "%d specifiers" % len(want), "no node returned")); return
        st, v = outs[0]; r = st.mem[("H", objname(v))]
        arr = r.d.get(fkey(F, "ArrSpecs"), C0)
        got = [arr.d.get(("i", ("c", i)), "?") for i in range(len(want))] if isinstance(arr, Rec) else []
        if got != [("c", x) for x in want] or r.d.get(fkey(F, "NumEntries")) != ("c", len(want)) or r.d.get(fkey(F, "Type")) != ("c", CTv["CT_Specifiers"]):
            bad.append((fn, "%d specifiers" % len(want), "list holds %s, count %s" % (got, r.d.get(fkey(F, "NumEntries")))))
    var, arrs = upf.overloads(F, "def_specifiers"); arrs = arrs + upf.overloads(F, "def_specifiers_arr")[1]
    for x in vals: ip, o = run("def_specifier", (("c", x),)); speclist(ip, o, [x], "def_specifier")
    for k in (1, 2, 3, 5, cap):
        w = (vals * 3)[:k]
        for f in var: ip, o = run(f, (("c", k),) + tuple(("c", x) for x in w)); speclist(ip, o, w, "def_specifiers")
        def prep(st): st.mem[("H", "arr")] = Rec(C0, {("i", ("c", i)): ("c", x) for i, x in enumerate(w)})
        for f in arrs: ip, o = run(f, (("c", k), ("addr", ("H", "arr"), (("i", C0),))), prep); speclist(ip, o, w, "def_specifiers_arr")
    for k in (0, -1, cap + 1, cap + 7):
        for fn, fs in (("def_specifiers", var), ("def_specifiers_arr", arrs)):
            a = tuple(("c", vals[1]) for i in range(max(k, 0)))
            def prep(st): st.mem[("H", "arr")] = Rec(C0, {("i", ("c", i)): ("c", vals[1]) for i in range(max(k, 0))})
            for f in fs:
                ip, o = run(f, (("c", k),) + (a if f.get("var") else (("addr", ("H", "arr"), (("i", C0),)),)), prep)
                if [objname(v) for s, v in o] != ["INVALID"]: bad.append((fn, "%d specifiers" % k, "not refused"))
    # comments: every line is prefixed
    for text in ("a", "ab", "a\nb", "ab\ncd\n", "\n", "a\n\nb", "a\n", "one\ntwo three\nfour"):
        ip, outs = run("def_comment", (Rec(C0, {"Ptr": ("addr", ("S", text), (("i", C0),)), "Len": ("c", len(text))}),))
        lines = text.split("\n")
        if text.endswith("\n"): alts = {"".join("//%s\n" % l for l in lines[:-1]), "".join("//%s\n" % l for l in lines)}
        else: alts = {"".join("//%s\n" % l for l in lines)}
        got = {ip.text_of_str(s, field(ip, s, objname(v), "Content")) if (objname(v) or "").startswith("new") else "no node" for s, v in outs}
        if not got or not got <= alts: bad.append(("def_comment", repr(text), "becomes %s" % sorted(got)))
    # formatted untyped text
    ip, outs = run("untyped_str", (mkstr("\u27e8content\u27e9"),))
    return n, bad

def check(rep):
    for cfg in ["nofatal"] + (["linux_nofatal"] if rep.tier == "thorough" else []):
        F = gx.extract(cfg); tot = 0
        def put(fn, bad, n):
            nonlocal tot
            tot += n; rep.ok(max(0, n - len(bad)))
            seen = {}
            for k, w, d in bad: seen.setdefault(k, []).append((w, d))
            for k, ds in seen.items():
                rep.bad("%s:%s" % (fn, k), F.at(F.fn(fn)), "construction", "%s given %s: %s%s" % (fn, ds[0][0], ds[0][1], " (+%d more)" % (len(ds) - 1) if len(ds) > 1 else ""))
        for fn, n, bad in gx.pmap(one, [(cfg, c.fn) for c in upf.TABLE]):
            put(fn, bad, n); rep.sample({"function": fn, "presence combinations": n})
        ops = [k for k in F.enumvals("Operator") if k.startswith("Op_") and k not in ("Op_NumOps", "Op_UnderlyingType")]
        for op, n, bad in gx.pmap(one_op, [(cfg, op) for op in ops]): put("def_operator", [(op + ":" + k, w, d) for k, w, d in bad], n)
        n, bad = misc(cfg)
        for k, w, d in bad: put(k.split(":")[0], [(k, w, d)], 1)
        tot += n
        rep.need("constructor calls %s" % cfg, tot, 3000)
