"""Model for the code-construction functions: an interpreter in which make_code yields fresh zeroed nodes and cache_str is the identity on the
text, plus a table of the construction functions' contracts (arguments, the node kinds they admit, the node component each one fills)."""
import itertools
import gx, astm
from absint import Interp, State, Rec, C0, C1, UND, is_c, is_addr
from astm import Obj, mkstr, fkey, wrap, ptr, code, NULLCODE, NULLSTR

INVALID = code("INVALID")

class UpfInterp(astm.TextInterp):
    rec_depth = 6
    def __init__(self, F, models=None):
        m = {"make_code": UpfInterp.m_make_code, "cache_str": UpfInterp.m_cache, "code_debug_str": UpfInterp.m_dbg, "c_str_fmt_buf": UpfInterp.m_cfmt,
             "c_str_len": UpfInterp.m_clen, "register_macro": UpfInterp.m_register, "mem_copy": UpfInterp.m_memcopy, "str_visualize_whitespace": UpfInterp.m_dbg}
        m.update(models or {})
        astm.TextInterp.__init__(self, F, m, max_iter=24, inline_depth=30)
        self.nulls = []; self.oob = []
        self.gname = {}
        for g in F.gid.values(): self.gname.setdefault(g["n"], g["id"])
    def on_null(self, st, node, val, what): self.nulls.append((what, self.F.byid[self.stack[-1]]["n"] if self.stack else "?"))
    def read(self, st, loc):
        if loc[0] == ("H", "arr") and loc[1] and "arrlen" in st.x and is_c(loc[1][0][1]) and not 0 <= loc[1][0][1][1] < st.x["arrlen"]:
            self.oob.append("element %d of an array of %d" % (loc[1][0][1][1], st.x["arrlen"]))
        return astm.TextInterp.read(self, st, loc)
    def m_make_code(self, e, st):
        st = st.clone(); k = st.x.get("ncode", 0) + 1; st.x["ncode"] = k
        st.mem[("H", "new%d" % k)] = Rec(C0, {})
        return [(st, code("new%d" % k))]
    def m_cache(self, e, st): return [(s, self.devalue(s, vs[0])) for s, vs in self.evargs(e["a"], st)]
    def m_dbg(self, e, st): return [(s, mkstr("dbg")) for s, vs in self.evargs(e["a"], st)]
    def m_cfmt(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st): out.append((s, ("str", self.fmt(s, self.text_of_ptr(s, vs[0]), vs[1:]))))
        return out
    def m_clen(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st): out.append((s, ("c", len(self.text_of_ptr(s, self.devalue(s, vs[0]))))))
        return out
    def m_register(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone(); s.x["macros"] = s.x.get("macros", ()) + (self.devalue(s, vs[0]),); out.append((s, UND))
        return out
    def m_memcopy(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone(); d, q = [v.d["ast"] if isinstance(v, Rec) and "ast" in v.d else v for v in (self.devalue(s, vs[0]), self.devalue(s, vs[1]))]
            if q == C0 or d == C0: self.on_null(s, e, q, "mem_copy"); continue
            if is_addr(d) and is_addr(q): self.write(s, (d[1], d[2]), self.read(s, (q[1], q[2])), e)
            else: self.write(s, (("H", "?"), ()), UND, e)
            out.append((s, d))
        return out
    def vaarg(self, e, st):
        """the i-th va_arg of a frame reads the i-th variable argument"""
        d = len(self.stack); st = st.clone()
        i = st.mem.get(("L", d, "va_i"), 0); va = st.mem.get(("L", d, "varargs"), ())
        st.mem[("L", d, "va_i")] = i + 1
        if i >= len(va): self.oob.append("va_arg %d of %d" % (i + 1, len(va))); return [(st, st.fresh("va"))]
        return [(st, self.devalue(st, va[i]))]
    def base_state(self):
        st = State()
        F = self.F
        def g(n, v):
            if n in self.gname: st.mem[("G", self.gname[n])] = v
            else: raise gx.AnalysisBroken("global %s not found" % n)
        g("Code_Invalid", INVALID)
        Obj(F, "INVALID", "CT_Invalid").put(st)
        for n, t in (("t_void", "void"), ("t_int", "int"), ("t_bool", "bool"), ("t_auto", "auto"), ("t_char", "char")):
            Obj(F, n, "CT_Typename", Name=t).put(st); g(n, code(n))
        st.mem[("G", self.gname["_ctx"])] = ("addr", ("H", "ctx"), ())
        return st

def node(F, st, name, kind):
    """an otherwise empty node of the given kind"""
    if ("H", name) not in st.mem:
        o = Obj(F, name, kind)
        if kind == "CT_Typename": o.set("Name", "\u27e8%s\u27e9" % name)
        elif kind == "CT_Untyped": o.set("Name", "\u27e8%s\u27e9" % name); o.set("Content", "\u27e8%s\u27e9" % name)
        elif kind in ("CT_Parameters", "CT_Parameters_Define"): o.set("Name", "\u27e8%s\u27e9" % name); o.set("NumEntries", 1)
        o.put(st)
    return code(name)

def overloads(F, fn):
    """-> (variadic definition or None, array overloads)"""
    fs = F.byname.get(fn, [])
    if not fs: raise gx.AnalysisBroken("function %s not found" % fn)
    return [f for f in fs if f.get("var")], [f for f in fs if not f.get("var")]

class A:
    """one argument: kind 'str' / 'code' / 'int' / 'arr'; allowed node kinds; required; the component it fills; `strict`: other kinds must be refused"""
    def __init__(self, name, kind="str", allow=(), req=False, slot=None, strict=True, vals=(1,), enum=None, val=None):
        self.name = name; self.kind = kind; self.allow = set(allow); self.req = req; self.slot = slot; self.strict = strict; self.vals = vals; self.enum = enum; self.val = val

ATTR = ("CT_PlatformAttributes",); SPECS = ("CT_Specifiers",); TYPE = ("CT_Typename",); PARAMS = ("CT_Parameters",); UNT = ("CT_Untyped",)
FB = ("CT_Function_Body", "CT_Untyped"); FBX = ("CT_Function_Body", "CT_Execution", "CT_Untyped")
def attr(n="attributes", slot="Attributes"): return A(n, "code", ATTR, slot=slot)
def spec(n="specifiers"): return A(n, "code", SPECS, slot="Specs")
def mflags(): return A("mflags", "int", slot="ModuleFlags")
def name(n="name", req=True, slot="Name"): return A(n, req=req, slot=slot)
def body(allow, req=False): return A("body", "code", allow, req=req, slot="Body")

class C:
    def __init__(self, fn, args, opts=None, tag=None, extra=None, invalid=None, skip=()):
        self.fn = fn; self.args = args; self.opts = opts; self.tag = tag if callable(tag) else (lambda p, t=tag: t)
        self.extra = extra; self.invalid = invalid or (lambda p, k: False); self.skip = skip
    def all(self): return self.args + (self.opts or [])

def two(d, f): return lambda p: d if p.get("body") else f
TABLE = [
    C("def_attributes", [name("content", slot="Content")], tag="CT_PlatformAttributes"),
    C("def_constructor", [], [A("params", "code", PARAMS, slot="Params"), A("initializer_list", "code", UNT, slot="InitializerList", strict=False), body(FB)], two("CT_Constructor", "CT_Constructor_Fwd")),
    C("def_class", [name()], [body(("CT_Class_Body", "CT_Untyped")), A("parent", "code", ("CT_Class", "CT_Struct", "CT_Typename", "CT_Untyped"), slot="ParentType"), A("parent_access", "int", slot="ParentAccess", vals=(2,)),
        attr(), A("interfaces", "arr"), spec(), mflags()], two("CT_Class", "CT_Class_Fwd")),
    C("def_struct", [name(req=False)], [body(("CT_Struct_Body",)), A("parent", "code", TYPE, slot="ParentType"), A("parent_access", "int", slot="ParentAccess", vals=(2,)),
        attr(), A("interfaces", "arr"), spec(), mflags()], two("CT_Struct", "CT_Struct_Fwd")),
    C("def_define", [name(), A("type", "int", vals=(2,))], [A("params", "code", ("CT_Parameters_Define",), slot="Params"), A("content"), A("flags", "int", vals=(5,)), A("dont_register_to_preprocess_macros", "int")], "CT_Preprocess_Define"),
    C("def_destructor", [], [body(FB), spec()], two("CT_Destructor", "CT_Destructor_Fwd")),
    C("def_enum", [name()], [body(("CT_Enum_Body", "CT_Untyped")), A("type", "code", TYPE), A("specifier", "int", enum="EnumDecl_Class"), attr(), mflags(), A("type_macro", "code", UNT, strict=False)],
        lambda p: "CT_Enum" + ("_Class" if p.get("specifier") else "") + ("" if p.get("body") else "_Fwd"),
        invalid=lambda p, k: not p.get("body") and not p.get("type") and not p.get("type_macro") and not p.get("specifier"),
        skip=(lambda p: not p.get("body") and not p.get("type") and not p.get("type_macro") and p.get("specifier"),)),
    C("def_execution", [name("content", slot="Content")], tag="CT_Execution"),
    C("def_extern_link", [name(), body(("CT_Extern_Linkage_Body", "CT_Untyped"), True)], tag="CT_Extern_Linkage"),
    C("def_friend", [A("declaration", "code", ("CT_Class_Fwd", "CT_Function_Fwd", "CT_Operator_Fwd", "CT_Struct_Fwd", "CT_Class", "CT_Function", "CT_Operator", "CT_Struct"), req=True, slot="Declaration")], tag="CT_Friend"),
    C("def_function", [name()], [A("params", "code", PARAMS, slot="Params"), A("ret_type", "code", TYPE), body(FBX), A("specs", "code", SPECS, slot="Specs"), attr("attrs"), mflags()], two("CT_Function", "CT_Function_Fwd")),
    C("def_include", [A("path", req=True)], [A("foreign", "int")], "CT_Preprocess_Include"),
    C("def_module", [name()], [mflags()], "CT_Module"),
    C("def_namespace", [name(), body(("CT_Namespace_Body", "CT_Untyped"), True)], [mflags()], "CT_Namespace"),
    C("def_operator_cast", [A("type", "code", TYPE, req=True, slot="ValueType")], [body(("CT_Function_Body", "CT_Execution")), A("specs", "code", SPECS, slot="Specs")], two("CT_Operator_Cast", "CT_Operator_Cast_Fwd")),
    C("def_param", [A("type", "code", TYPE, req=True, slot="ValueType"), name()], [A("value", "code", UNT, slot="Value")], "CT_Parameters"),
    C("def_pragma", [name("directive", slot="Content")], tag="CT_Preprocess_Pragma"),
    C("def_template", [A("params", "code", PARAMS, slot="Params"), A("declaration", "code", ("CT_Class", "CT_Function", "CT_Struct", "CT_Variable", "CT_Using"), req=True, slot="Declaration")], [mflags()], "CT_Template"),
    C("def_type", [name()], [A("type_tag", "int", slot="TypeTag", vals=(3,)), A("array_expr", "code", UNT, slot="ArrExpr"), spec(), attr()], "CT_Typename"),
    C("def_typedef", [name(req=False), A("type", "code", ("CT_Class", "CT_Class_Fwd", "CT_Enum", "CT_Enum_Fwd", "CT_Enum_Class", "CT_Enum_Class_Fwd", "CT_Function_Fwd", "CT_Struct", "CT_Struct_Fwd", "CT_Union", "CT_Typename", "CT_Untyped"),
        req=True, slot="UnderlyingType", strict=True)], [attr(slot=None), mflags()], "CT_Typedef", invalid=lambda p, k: not p.get("name") and k.get("type") != "CT_Untyped"),
    C("def_union", [name(req=False), body(("CT_Union_Body",), True)], [attr(), mflags()], "CT_Union"),
    C("def_using", [name(), A("type", "code", TYPE, req=True, slot="UnderlyingType", strict=False)], [attr(), mflags()], "CT_Using"),
    C("def_using_namespace", [name()], tag="CT_Using_Namespace"),
    C("def_variable", [A("type", "code", TYPE, req=True, slot="ValueType"), name()], [A("value", "code", UNT, slot="Value"), spec(), attr(), mflags()], "CT_Variable"),
    C("untyped_str", [name("content", slot="Content")], tag="CT_Untyped"),
]

def build_args(ip, st, c, pres, kinds=None):
    """argument values for construction function c with the given presence of each argument and node kind overrides"""
    F = ip.F; kinds = kinds or {}
    def val(a):
        p = pres.get(a.name)
        if a.kind == "str": return mkstr("\u27e8%s\u27e9" % a.name) if p is True or p == 1 else NULLSTR if not p else p
        if a.kind == "code": return node(F, st, a.name, kinds.get(a.name, sorted(a.allow)[0])) if p else NULLCODE
        if a.kind == "int": return ("c", F.enumvals_flat(a.enum) if a.enum else a.vals[0]) if p else C0
        if a.kind == "arr":
            if not p: return C0
            st.mem[("H", "ifaces")] = Rec(C0, {("i", ("c", i)): node(F, st, "iface%d" % i, "CT_Typename") for i in range(p)})
            return ("addr", ("H", "ifaces"), (("i", C0),))
    args = [val(a) for a in c.args]
    if c.opts is not None:
        d = {}
        for a in c.opts:
            d[a.name] = val(a)
            if a.kind == "arr": d["num_" + a.name] = ("c", pres.get(a.name) or 0)
        args.append(Rec(C0, d))
    return tuple(args)

def call(F, c, pres, kinds=None):
    ip = UpfInterp(F); st = ip.base_state()
    args = build_args(ip, st, c, pres, kinds)
    outs = ip.run(c.fn, args, st)
    return ip, [(s, ip.devalue(s, v)) for s, v in outs]

def defaults(c):
    """valid arguments: the required ones, plus what is needed for a definition"""
    return {a.name: 1 for a in c.all() if a.req or a.name in ("body", "name")}
