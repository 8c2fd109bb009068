"""Serializer model: every kind's optional components, the text C++ requires for each presence combination, and the interpretation of the
serializer over that combination.  Component text is an opaque placeholder, so the comparison is about which components are emitted, how often,
in what order and with which punctuation; layout whitespace is not compared."""
import re, itertools
import gx, absint, astm
from absint import State, Rec, C0, C1, UND, is_c, is_addr
from astm import Obj, code, ptr, wrap, NULLCODE, mkstr, specs, SPEC_TRAILING, fkey

def ph(n): return "\u27e8%s\u27e9" % n
TOK = re.compile(r"\s+|\u27e8[^\u27e9]*\u27e9|[A-Za-z_0-9]+|\"|.", re.S)

def norm(text, cmt=None):
    """-> (tokens, number of inline comments); word-like tokens that touch get a GLUE marker; a directive not ended by a newline too"""
    out = []; prev = None; ws = True; ncmt = 0; direct = False; line = False
    for m in TOK.finditer(text):
        t = m.group(0)
        if t.isspace():
            ws = True
            if "\n" in t and direct: out.append("<nl>"); direct = False
            continue
        if t == cmt:
            while out and out[-1] == "/": out.pop()
            ncmt += 1; ws = True; prev = None; continue
        word = t[0] == "\u27e8" or t[0].isalnum() or t[0] == "_"
        if word and prev is not None and not ws and "\u27e8Entry" not in prev: out.append("<GLUE>")
        if t == "#" and (prev is None or not direct): direct = True
        out.append(t)
        prev = t if word else None
        if t == ph("Specs"): prev = None
        if direct and t == ph("Body"): out.append("<nl>"); direct = False
        ws = False
    return out, ncmt

class SerInterp(astm.TextInterp):
    LAST = {}
    def call(self, e, st):
        n = e.get("n") or ""
        if "to_strbuilder" in n and e.get("a"):
            f = self.F.byid.get(e.get("id")) or (self.F.byname.get(n) or [None])[0]
            if f is not None and f["ps"] and not e.get("meth"):
                pt = self.F.type(f["ps"][0]["t"])["s"].replace("const ", "")
                if pt.startswith("Code") or pt.startswith("AST"):
                    out = []
                    for s, vs in self.evargs(e["a"], st):
                        s = s.clone()
                        vs = tuple(self.devalue(s, v) for v in vs)
                        o = astm.objname(vs[0])
                        if o == "self":
                            out += self.invoke(f, s, vs); continue
                        t = self.child_text(s, o, vs[0])
                        if len(vs) > 1:
                            h = self.sb_of(s, vs[1])
                            if h is not None and h[0] == "sb": s.x[h] += t
                            out.append((s, UND))
                        else: out.append((s, self.sb_new(s, t)))
                    return out
        return astm.TextInterp.call(self, e, st)
    def child_text(self, st, o, v):
        if o is None:
            self.bad_child = v
            return ph("null" if v == C0 or v == NULLCODE else "?")
        r = st.mem.get(("H", o))
        if isinstance(r, Rec) and r.d.get(fkey(self.F, "Type")) == ("c", self.F.enumvals("CodeType")["CT_Specifiers"]) and fkey(self.F, "ArrSpecs") in r.d:
            n = r.d[fkey(self.F, "NumEntries")][1]; inv = {v: k[5:] for k, v in self.F.enumvals("Specifier").items() if k.startswith("Spec_")}
            a = r.d[fkey(self.F, "ArrSpecs")].d
            return " ".join(SPECV[inv[a[("i", ("c", i))][1]]] for i in range(n)) + " "
        return ph(o)
    def read(self, st, loc):
        v = astm.TextInterp.read(self, st, loc)
        if is_c(v) and v[1] == 0x27e9:
            t = st.x[loc[0][1]]
            o = t[t.rindex("\u27e8") + 1:-1]
            return ("c", ord(self.LAST.get(o, "x")))
        return v
    def on_null(self, st, node, val, what):
        st2 = st; self.nulls.append((node, what, self.F.byid[self.stack[-1]]["n"] if self.stack else "?"))

SPECV = {k: ("" if v == "__NA__" else v) for k, v in astm.ORACLE["ESpecifier"].items()}
ACCESS = ["AccessSpec_Default", "AccessSpec_Public", "AccessSpec_Protected", "AccessSpec_Private"]
ACCTXT = {"AccessSpec_Default": "", "AccessSpec_Public": "public", "AccessSpec_Protected": "protected", "AccessSpec_Private": "private"}

FNSPECS = [None, ["Inline"], ["Const"], ["Inline", "Const"], ["Const", "Static", "NoExceptions"], ["Virtual", "Override", "Final"]]
FWDSPECS = FNSPECS + [["Virtual", "Pure"], ["Delete"], ["Static", "Const", "Pure"]]

def pre(l): return " ".join(SPECV[s] for s in (l or []) if s not in SPEC_TRAILING)
def post(l): return " ".join(SPECV[s] for s in (l or []) if s in SPEC_TRAILING)
def P(x, n): return ph(n) if x.get(n) else ""

class Kind:
    def __init__(self, name, tag, dims, build, expect, entries=(), valid=None, last=None):
        self.name = name; self.tag = tag; self.dims = dims; self.build = build; self.expect = expect
        self.entries = entries; self.valid = valid; self.last = last
    def combos(self):
        ks = list(self.dims)
        for vs in itertools.product(*[self.dims[k] for k in ks]):
            x = dict(zip(ks, vs))
            if self.valid is None or self.valid(x): yield x

B2 = [0, 1]
PARENTS = ["none", "body", "CT_Typedef", "CT_Variable"]
FREE = ("none", "body")

def chain(F, st, base, n, **kw):
    """n linked nodes base1..basen; returns the first (or None)"""
    objs = [Obj(F, "%s%d" % (base, i + 1), **kw) for i in range(n)]
    for i, o in enumerate(objs):
        if i + 1 < n: o.set("Next", objs[i + 1])
        if i: o.set("Prev", objs[i - 1])
        o.set("Content", ph("%s%d" % (base, i + 1))) if kw.get("type") in ("CT_Untyped",) else None
        o.put(st)
    return objs[0] if objs else None

def common(F, st, x, o):
    if x.get("export"): o.set("ModuleFlags", F.enumvals("ModuleFlag")["ModuleFlag_Export"])
    if x.get("Attributes"): o.set("Attributes", Obj(F, "Attributes", "CT_PlatformAttributes", Content=ph("Attributes")).put(st))
    if x.get("InlineCmt"): o.set("InlineCmt", Obj(F, "InlineCmt", "CT_Comment", Content=ph("InlineCmt")).put(st))
    if x.get("Name"): o.set("Name", ph("Name"))
    elif o.d.get(fkey(F, "Type")) == ("c", F.enumvals("CodeType")["CT_Enum"]): o.set("Name", "")
    if x.get("specs") is not None: o.set("Specs", specs(F, st, "Specs", x["specs"]))
    p = x.get("parent", "none")
    if p == "body":
        b = Obj(F, "OwnerBody", "CT_Class_Body")
        if x.get("owner"): b.set("Parent", Obj(F, "Owner", "CT_Class", Name=ph("Owner")).put(st))
        o.set("Parent", b.put(st))
    elif p != "none": o.set("Parent", Obj(F, "ParentNode", p, Name=ph("ParentName")).put(st))

def child(F, st, o, x, field, type, **kw):
    if x.get(field):
        c = Obj(F, field, type, **kw).put(st); o.set(field, c); return c

def exp(x): return "export" if x.get("export") else ""

KINDS = []
def K(*a, **kw): KINDS.append(Kind(*a, **kw))

# ---- aggregates
def b_agg(F, st, x, o):
    common(F, st, x, o)
    if x.get("acc") is not None:
        pt = Obj(F, "ParentType", "CT_Typename", Name=ph("ParentType"))
        i = chain(F, st, "Iface", x["ifc"], type="CT_Typename")
        if i: pt.set("Next", i)
        o.set("ParentType", pt.put(st)); o.set("ParentAccess", F.enumvals("AccessSpec")[x["acc"]])
    child(F, st, o, x, "Body", "CT_Class_Body")
def e_agg(kw):
    def f(x):
        t = [exp(x), kw, P(x, "Attributes"), P(x, "Name")]
        if x["specs"] and "Final" in x["specs"]: t.append("final")
        if x["acc"] is not None:
            t += [":", ACCTXT[x["acc"]], ph("ParentType")]
            for i in range(x["ifc"]): t += [",", "public" if kw == "class" else "", ph("Iface%d" % (i + 1))]
        t += ["{", ph("Body"), "}"]
        if x["parent"] in FREE: t.append(";")
        return " ".join(t)
    return f
def v_agg(x): return not (x["acc"] is None and x["ifc"])
for kw, T in (("class", "Class"), ("struct", "Struct")):
    K(kw, "CT_" + T, dict(export=B2, Attributes=B2, Name=B2, specs=[None, [], ["Final"]], acc=[None] + ACCESS, ifc=[0, 1, 2], InlineCmt=B2, Body=[1], parent=PARENTS),
      b_agg, e_agg(kw), [kw + "_to_strbuilder"], v_agg)
    K(kw + "_fwd", "CT_%s_Fwd" % T, dict(export=B2, Attributes=B2, Name=[1], InlineCmt=B2, parent=PARENTS), common,
      (lambda kw: lambda x: " ".join([exp(x), kw, P(x, "Attributes"), P(x, "Name"), ";" if x["parent"] in FREE else ""]))(kw),
      [kw + "_to_strbuilder"], lambda x: not (x["InlineCmt"] and x["parent"] not in FREE))
def b_union(F, st, x, o): common(F, st, x, o); child(F, st, o, x, "Body", "CT_Union_Body")
K("union", "CT_Union", dict(export=B2, Attributes=B2, Name=B2, Body=[1], parent=PARENTS), b_union,
  lambda x: " ".join([exp(x), "union", P(x, "Attributes"), P(x, "Name"), "{", ph("Body"), "}", ";" if x["parent"] in FREE else ""]), ["union_to_strbuilder"])
K("union_fwd", "CT_Union_Fwd", dict(export=B2, Attributes=B2, Name=[1], parent=PARENTS), common,
  lambda x: " ".join([exp(x), "union", P(x, "Attributes"), P(x, "Name"), ";" if x["parent"] in FREE else ""]), ["union_to_strbuilder"])

# ---- enums
def b_enum(F, st, x, o):
    common(F, st, x, o)
    if x["under"] == "type": o.set("UnderlyingType", Obj(F, "UnderlyingType", "CT_Typename").put(st))
    if x["under"] == "macro": o.set("UnderlyingTypeMacro", Obj(F, "UnderlyingTypeMacro", "CT_Untyped", Content=ph("UnderlyingTypeMacro")).put(st))
    child(F, st, o, x, "Body", "CT_Enum_Body")
def e_enum(kw, d):
    def f(x):
        t = [exp(x), kw, P(x, "Attributes"), P(x, "Name")]
        if x["under"] == "type": t += [":", ph("UnderlyingType")]
        if x["under"] == "macro": t += [ph("UnderlyingTypeMacro")]
        if d: t += ["{", ph("Body"), "}"]
        if x["parent"] in FREE: t.append(";")
        return " ".join(t)
    return f
for n, kw, T in (("enum", "enum", "Enum"), ("enum_class", "enum class", "Enum_Class")):
    v = lambda x: not (x["InlineCmt"] and x["parent"] not in FREE)
    K(n, "CT_" + T, dict(export=B2, Attributes=B2, Name=B2 if n == "enum" else [1], under=[None, "type", "macro"], Body=[1], InlineCmt=B2, parent=PARENTS), b_enum, e_enum(kw, 1), ["enum_to_strbuilder"], v)
    K(n + "_fwd", "CT_%s_Fwd" % T, dict(export=B2, Attributes=B2, Name=[1], under=[None, "type", "macro"], InlineCmt=B2, parent=PARENTS), b_enum, e_enum(kw, 0), ["enum_to_strbuilder"], v)

# ---- functions
def b_fn(F, st, x, o):
    common(F, st, x, o)
    child(F, st, o, x, "ReturnType", "CT_Typename"); child(F, st, o, x, "ValueType", "CT_Typename")
    child(F, st, o, x, "Params", "CT_Parameters", NumEntries=1)
    child(F, st, o, x, "SuffixSpecs", "CT_Specifiers"); child(F, st, o, x, "Body", x.get("bodykind", "CT_Function_Body"))
def e_fn(d):
    def f(x):
        t = [exp(x), P(x, "Attributes"), pre(x["specs"]), P(x, "ReturnType"), P(x, "Name"), "(", P(x, "Params"), ")", post(x["specs"]), P(x, "SuffixSpecs")]
        if d: t += ["{", ph("Body"), "}"]
        else: t += ["=" if x.get("Body") else "", P(x, "Body"), ";"]
        return " ".join(t)
    return f
def v_fwd(x): return not (x.get("Body") and (x["specs"] and ("Pure" in x["specs"] or "Delete" in x["specs"])))
K("function", "CT_Function", dict(export=B2, Attributes=B2, specs=FNSPECS, ReturnType=B2, Name=[1], Params=B2, SuffixSpecs=B2, Body=[1]), b_fn, e_fn(1), ["fn_to_strbuilder"])
K("function_fwd", "CT_Function_Fwd", dict(export=B2, Attributes=B2, specs=FWDSPECS, ReturnType=B2, Name=[1], Params=B2, SuffixSpecs=B2, Body=B2, InlineCmt=B2), b_fn, e_fn(0), ["fn_to_strbuilder"], v_fwd)
for T in ("Operator", "Operator_Member"):
    K(T.lower(), "CT_" + T, dict(export=B2, Attributes=B2, specs=FNSPECS, ReturnType=B2, Name=[1], Params=B2, Body=[1]), b_fn, e_fn(1), ["code_op_to_strbuilder"])
    K(T.lower() + "_fwd", "CT_%s_Fwd" % T, dict(export=B2, Attributes=B2, specs=FWDSPECS, ReturnType=B2, Name=[1], Params=B2, InlineCmt=B2), b_fn, e_fn(0), ["code_op_to_strbuilder"])
def e_opcast(d):
    def f(x):
        return " ".join([pre(x["specs"]), P(x, "Name"), "operator", ph("ValueType"), "()", post(x["specs"])] + (["{", ph("Body"), "}"] if d else [";"]))
    return f
OCSPECS = [None, ["Explicit"], ["Const"], ["Explicit", "Constexpr", "Const"]]
K("opcast", "CT_Operator_Cast", dict(specs=OCSPECS, Name=B2, ValueType=[1], Body=[1]), b_fn, e_opcast(1), ["opcast_to_strbuilder"])
K("opcast_fwd", "CT_Operator_Cast_Fwd", dict(specs=OCSPECS, Name=B2, ValueType=[1], InlineCmt=B2), b_fn, e_opcast(0), ["opcast_to_strbuilder"])
def own(x): return ph("Owner") if x["parent"] == "body" and x["owner"] else ph("Name")
def b_ctor(F, st, x, o):
    b_fn(F, st, x, o)
    child(F, st, o, x, "InitializerList", "CT_Untyped", Content=ph("InitializerList"))
def v_own(x): return not (x["owner"] and x["parent"] != "body")
CTSPECS = [None, ["Explicit"], ["Constexpr", "NoExceptions"]]
K("constructor", "CT_Constructor", dict(specs=CTSPECS, parent=["none", "body"], owner=B2, Name=[1], Params=B2, InitializerList=B2, InlineCmt=B2, Body=[1]), b_ctor,
  lambda x: " ".join([pre(x["specs"]), own(x), "(", P(x, "Params"), ")", post(x["specs"]), ":" if x["InitializerList"] else "", P(x, "InitializerList"), "{", ph("Body"), "}"]), ["constructor_to_strbuilder"], v_own)
K("constructor_fwd", "CT_Constructor_Fwd", dict(specs=CTSPECS, parent=["none", "body"], owner=B2, Name=[1], Params=B2, Body=B2, InlineCmt=B2), b_ctor,
  lambda x: " ".join([pre(x["specs"]), own(x), "(", P(x, "Params"), ")", post(x["specs"]), "=" if x["Body"] else "", P(x, "Body"), ";"]), ["constructor_to_strbuilder"], v_own)
def v_dtor(x): return v_own(x) and (x["Name"] or (x["parent"] == "body" and x["owner"])) and v_fwd(x)
def dname(x): return ph("Name") if x["Name"] else "~" + ph("Owner")
def b_dtor(F, st, x, o): b_fn(F, st, x, o)
K("destructor", "CT_Destructor", dict(specs=[None, ["Virtual"], ["Inline"], ["Virtual", "Override"]], parent=["none", "body"], owner=B2, Name=B2, Body=[1]), b_dtor,
  lambda x: " ".join([pre(x["specs"]), dname(x), "()", post(x["specs"]), "{", ph("Body"), "}"]), ["destructor_to_strbuilder"], v_dtor)
K("destructor_fwd", "CT_Destructor_Fwd", dict(specs=[None, ["Virtual"], ["Inline"], ["Virtual", "Pure"], ["Virtual", "Override"]], parent=["none", "body"], owner=B2, Name=B2, Body=B2, InlineCmt=B2), b_dtor,
  lambda x: " ".join([pre(x["specs"]), dname(x), "()", post(x["specs"]), "=" if x["Body"] else "", P(x, "Body"), ";"]), ["destructor_to_strbuilder"], v_dtor)

# ---- parameters
def b_params(F, st, x, o):
    common(F, st, x, o)
    child(F, st, o, x, "Macro", "CT_Untyped", Content=ph("Macro")); child(F, st, o, x, "ValueType", "CT_Typename")
    child(F, st, o, x, "PostNameMacro", "CT_Untyped"); child(F, st, o, x, "Value", "CT_Untyped")
    o.set("NumEntries", x["n"])
    if x["n"] > 1:
        ch = chain(F, st, "Entry", x["n"] - 1, type="CT_Parameters")
        o.set("Next", ch); o.set("Last", code("Entry%d" % (x["n"] - 1)))
K("params", "CT_Parameters", dict(Macro=B2, ValueType=B2, Name=B2, PostNameMacro=B2, Value=B2, n=[1, 2, 3, 4]), b_params,
  lambda x: " ".join([P(x, "Macro"), P(x, "ValueType"), P(x, "Name"), P(x, "PostNameMacro"), "=" if x["Value"] else "", P(x, "Value")] + [", " + ph("Entry%d" % (i + 1)) for i in range(x["n"] - 1)]),
  ["params_to_strbuilder", "params_to_strbuilder_ref"], lambda x: x["Macro"] or x["ValueType"] or x["Name"])
def b_dparams(F, st, x, o):
    common(F, st, x, o); o.set("NumEntries", x["n"])
    if x["n"] > 1: o.set("Next", chain(F, st, "Entry", x["n"] - 1, type="CT_Parameters_Define")); o.set("Last", code("Entry%d" % (x["n"] - 1)))
K("define_params", "CT_Parameters_Define", dict(Name=[1], n=[1, 2, 3, 4]), b_dparams,
  lambda x: " ".join([P(x, "Name")] + [", " + ph("Entry%d" % (i + 1)) for i in range(x["n"] - 1)]), ["define_params_to_strbuilder", "define_params_to_strbuilder_ref"])
def b_define(F, st, x, o):
    common(F, st, x, o); o.set("Body", Obj(F, "Body", "CT_Untyped", Content=ph("Body")).put(st)); child(F, st, o, x, "Params", "CT_Parameters_Define", NumEntries=1)
K("define", "CT_Preprocess_Define", dict(Name=[1], Params=B2, Body=[1]), b_define,
  lambda x: "#define " + ph("Name") + ("(" + ph("Params") + ")" if x["Params"] else "") + " " + ph("Body"), ["define_to_strbuilder", "define_to_strbuilder_ref"])

# ---- types and variables
def b_arr(F, st, x, tn):
    if x.get("arr"):
        a = chain(F, st, "Arr", x["arr"], type="CT_Untyped"); tn.set("ArrExpr", a)
def arr(x): return " ".join("[ %s ]" % ph("Arr%d" % (i + 1)) for i in range(x["arr"]))
def b_typename(F, st, x, o):
    common(F, st, x, o)
    if x["tag"]: o.set("TypeTag", F.enumvals("ETypenameTag")["Tag_" + x["tag"].capitalize()])
    if x["pack"]: o.set("IsParamPack", 1)
    b_arr(F, st, x, o)
K("typename", "CT_Typename", dict(Attributes=B2, specs=[None, ["Const"], ["Const", "Ptr"], ["Ref"]], tag=[None, "class", "enum", "struct", "union"], pack=B2, arr=[0, 1], Name=[1]), b_typename,
  lambda x: " ".join([P(x, "Attributes"), x["tag"] or "", ph("Name"), " ".join(SPECV[s] for s in (x["specs"] or [])), "..." if x["pack"] else ""]), ["typename_to_strbuilder", "typename_to_strbuilder_ref"])
def b_fntype(F, st, x, o):
    b_fn(F, st, x, o)
K("typename_fn", "CT_Typename", dict(Attributes=B2, specs=[None, ["Const"], ["Const", "NoExceptions"]], ReturnType=[1], Params=[1], Name=[1]), b_fntype,
  lambda x: " ".join([P(x, "Attributes"), ph("ReturnType"), ph("Name"), "(", ph("Params"), ")", " ".join(SPECV[s] for s in (x["specs"] or []))]), ["typename_to_strbuilder"])
def b_typedef(F, st, x, o):
    common(F, st, x, o)
    u = Obj(F, "UnderlyingType", x["ukind"])
    if x["fn"]: u.set("ReturnType", Obj(F, "URet", "CT_Typename").put(st)); o.set("IsFunction", 1)
    b_arr(F, st, x, u); o.set("UnderlyingType", u.put(st))
K("typedef", "CT_Typedef", dict(export=B2, Name=[1], ukind=["CT_Typename", "CT_Struct", "CT_Enum", "CT_Union", "CT_Class_Fwd"], fn=B2, arr=[0, 1, 2, 3], InlineCmt=B2), b_typedef,
  lambda x: " ".join([exp(x), "typedef", ph("UnderlyingType"), "" if x["fn"] else ph("Name"), arr(x), ";"]), ["typedef_to_strbuilder", "typedef_to_strbuilder_ref"],
  lambda x: not ((x["fn"] or x["arr"]) and x["ukind"] != "CT_Typename") and not (x["fn"] and x["arr"]))
def b_using(F, st, x, o):
    common(F, st, x, o)
    if x["under"]:
        u = Obj(F, "UnderlyingType", "CT_Typename"); b_arr(F, st, x, u); o.set("UnderlyingType", u.put(st))
K("using", "CT_Using", dict(export=B2, Attributes=B2, Name=[1], under=B2, arr=[0, 1, 2, 3], InlineCmt=B2), b_using,
  lambda x: " ".join([exp(x), P(x, "Attributes"), "using", ph("Name")] + (["=", ph("UnderlyingType"), arr(x)] if x["under"] else []) + [";"]), ["using_to_strbuilder", "using_to_strbuilder_ref"],
  lambda x: x["under"] or not x["arr"])
K("using_namespace", "CT_Using_Namespace", dict(export=B2, Attributes=B2, Name=[1], InlineCmt=B2), common,
  lambda x: " ".join([exp(x), P(x, "Attributes"), "using namespace", ph("Name"), ";"]), ["using_to_strbuilder", "using_to_strbuilder_ns"])
def b_var(F, st, x, o):
    common(F, st, x, o)
    if x["vt"]:
        t = Obj(F, "ValueType", "CT_Typename"); b_arr(F, st, x, t); o.set("ValueType", t.put(st))
    child(F, st, o, x, "BitfieldSize", "CT_Untyped"); child(F, st, o, x, "Value", "CT_Untyped")
    if x["Value"] == 2: o.set("VarParenthesizedInit", 1)
    child(F, st, o, x, "NextVar", "CT_Variable")
    if x.get("Specs"): o.set("Specs", Obj(F, "Specs", "CT_Specifiers", NumEntries=1).put(st))
def val(x): return {0: "", 1: "= " + ph("Value"), 2: "( " + ph("Value") + " )"}[x["Value"]]
def v_var(x): return not (x["BitfieldSize"] and (x["arr"] or x["Value"] == 2)) and not (x["arr"] and not x["vt"])
K("variable", "CT_Variable", dict(export=B2, Attributes=B2, Specs=B2, vt=[1], Name=[1], arr=[0, 1, 2, 3], BitfieldSize=B2, Value=[0, 1, 2], NextVar=B2, InlineCmt=B2), b_var,
  lambda x: " ".join([exp(x), P(x, "Attributes"), P(x, "Specs"), ph("ValueType"), ph("Name"), arr(x), ":" if x["BitfieldSize"] else "", P(x, "BitfieldSize"), val(x), "," if x["NextVar"] else "", P(x, "NextVar"), ";"]),
  ["var_to_strbuilder", "var_to_strbuilder_ref"], v_var)
K("variable_next", "CT_Variable", dict(Specs=B2, vt=B2, Name=[1], arr=[0, 1, 2], BitfieldSize=B2, Value=[0, 1, 2], NextVar=B2, parent=["CT_Variable"]), b_var,
  lambda x: " ".join([P(x, "Specs"), ph("Name"), arr(x), ":" if x["BitfieldSize"] else "", P(x, "BitfieldSize"), val(x), "," if x["NextVar"] else "", P(x, "NextVar")]), ["var_to_strbuilder"], v_var)

# ---- the rest
def b_decl(F, st, x, o):
    common(F, st, x, o); o.set("Declaration", Obj(F, "Declaration", x["dk"]).put(st)); child(F, st, o, x, "Params", "CT_Parameters", NumEntries=1)
K("template", "CT_Template", dict(export=B2, Params=B2, dk=["CT_Class", "CT_Function"]), b_decl,
  lambda x: " ".join([exp(x), "template <", P(x, "Params"), ">", ph("Declaration")]), ["template_to_strbuilder", "template_to_strbuilder_ref"])
SELFTERM = ["CT_Function", "CT_Operator", "CT_Function_Fwd", "CT_Class_Fwd", "CT_Struct_Fwd", "CT_Variable", "CT_Operator_Fwd", "CT_Class", "CT_Struct", "CT_Union"]
K("friend", "CT_Friend", dict(dk=["CT_Typename"] + SELFTERM, InlineCmt=B2), b_decl,
  lambda x: " ".join(["friend", ph("Declaration"), ";" if x["dk"] == "CT_Typename" else ""]), ["friend_to_strbuilder", "friend_to_strbuilder_ref"])
def b_body(F, st, x, o): common(F, st, x, o); child(F, st, o, x, "Body", "CT_Namespace_Body")
K("extern", "CT_Extern_Linkage", dict(Name=[1], Body=B2), b_body, lambda x: 'extern "' + ph("Name") + '" { ' + P(x, "Body") + " }", ["extern_to_strbuilder"])
K("namespace", "CT_Namespace", dict(export=B2, Name=[1], Body=[1]), b_body, lambda x: " ".join([exp(x), "namespace", ph("Name"), "{", ph("Body"), "}"]), ["namespace_to_strbuilder", "namespace_to_strbuilder_ref"])
def b_mod(F, st, x, o): common(F, st, x, o); o.set("ModuleFlags", x["mf"])
K("module", "CT_Module", dict(mf=[0, 1, 2, 3], Name=[1]), b_mod, None, ["module_to_strbuilder", "module_to_strbuilder_ref"])
def b_content(F, st, x, o): o.set("Content", ph("Content"))
for n, T, d, en in (("if", "If", "#if %s\n", 1), ("ifdef", "IfDef", "#ifdef %s\n", 1), ("ifndef", "IfNotDef", "#ifndef %s\n", 1), ("elif", "ElIf", "#elif %s\n", 1), ("else", "Else", "#else\n", 1), ("endif", "EndIf", "#endif\n", 1)):
    K("pp_" + n, "CT_Preprocess_" + T, {}, b_content, (lambda d: lambda x: d.replace("%s", ph("Content")))(d), ["preprocess_to_strbuilder"])
K("include", "CT_Preprocess_Include", {}, b_content, lambda x: "#include " + ph("Content") + "\n", ["include_to_strbuilder", "include_to_strbuilder_ref"])
K("pragma", "CT_Preprocess_Pragma", {}, b_content, lambda x: "#pragma " + ph("Content") + "\n", ["pragma_to_strbuilder", "pragma_to_strbuilder_ref"])
for n, T, ens in (("comment", "CT_Comment", ["comment_to_strbuilder", "comment_to_strbuilder_ref"]), ("untyped", "CT_Untyped", []), ("execution", "CT_Execution", ["exec_to_strbuilder", "exec_to_strbuilder_ref"]), ("attributes", "CT_PlatformAttributes", ["attributes_to_strbuilder", "attributes_to_strbuilder_ref"])):
    K(n, T, {}, b_content, lambda x: ph("Content"), ens)
for a in ("Private", "Protected", "Public"):
    K("access_" + a.lower(), "CT_Access_" + a, dict(Name=[1]), common, lambda x: ph("Name"))
K("newline", "CT_NewLine", {}, lambda F, st, x, o: None, lambda x: "")
def b_specs(F, st, x, o):
    s = specs(F, st, "tmp", x["l"]); del st.mem[("H", "tmp")]; o.d.update(s.d)
K("specifiers", "CT_Specifiers", dict(l=[["Const"], ["Const", "Inline"], ["Static", "Constexpr", "Inline"], ["Const", "Ptr", "Ptr"], ["Ref"], ["RValue"], ["Virtual", "Const", "Override", "Final"]]), b_specs,
  lambda x: " ".join(SPECV[s] for s in x["l"]), ["specifiers_to_strbuilder", "specifiers_to_strbuilder_ref"])
def b_entries(F, st, x, o):
    n = x["n"]; o.set("NumEntries", n)
    c = chain(F, st, "Entry", n, type="CT_NewLine")
    if c: o.set("Front", c); o.set("Back", code("Entry%d" % n))
    o.set("Parent", Obj(F, "BodyOwner", "CT_Class").put(st)); o.set("Name", ph("BodyName"))
def sep(x, s=" "): return s.join(ph("Entry%d" % (i + 1)) for i in range(x["n"]))
for T in ("Enum", "Class", "Extern_Linkage", "Function", "Global", "Namespace", "Struct", "Union"):
    K("body_" + T.lower(), "CT_%s_Body" % T, dict(n=[0, 1, 2, 3]), b_entries, lambda x: sep(x), ["body_to_strbuilder"])
K("body_export", "CT_Export_Body", dict(n=[0, 1, 2, 3]), b_entries, lambda x: "export { " + sep(x) + " }", ["body_to_strbuilder"])

ENTRY_SUFFIX = {"def": ("_def",), "fwd": ("_fwd",)}

def expected(F, k, x):
    if k.name == "module":
        ev = F.enumvals("ModuleFlag"); t = []
        if x["mf"] & ev["ModuleFlag_Export"]: t.append("export")
        if x["mf"] & ev["ModuleFlag_Import"]: t.append("import")
        return " ".join(t + [ph("Name"), ";"])
    return k.expect(x)

def run(F, k, x, entry):
    """-> (list of outputs, list of null derefs, list of aborts)"""
    ip = SerInterp(F, max_iter=24, inline_depth=24); ip.nulls = []; ip.visited = None
    ip.LAST = {"Declaration": "e" if x.get("dk") == "CT_Typename" else "\n"}
    st = State()
    o = Obj(F, "self", k.tag); k.build(F, st, x, o); o.put(st)
    f = F.fn(entry)
    byref = len(f["ps"]) > 1
    args = [wrap(ptr("self"))]
    if byref:
        h = ip.sb_new(st, ""); st.mem[("H", "out")] = h
        args.append(("addr", ("H", "out"), ()))
    outs = []
    for s, v in ip.invoke(f, st, tuple(args)):
        if byref: t = s.x[("sb", 1)]
        else: t = ip.text_of_sb(s, v)
        if t not in outs: outs.append(t)
    return outs, ip.nulls, ip.aborts, ip.visited_fns

def compare(F, k, x, outs):
    """None or description"""
    want = norm(expected(F, k, x))[0]
    alt = None
    nc = 1 if x.get("InlineCmt") else 0
    for t in outs:
        got, c = norm(t, ph("InlineCmt"))
        if k.name == "friend" and x["dk"] != "CT_Typename" and got and got[-1] == ";" and got[:-1] == want: got = got[:-1]
        if k.name == "body_export" and got and got[-1] == ";" : got = got[:-1]
        if got != want: return "emits `%s` where `%s` is required" % (" ".join(got), " ".join(want))
        if c != nc: return "emits the inline comment %d times, not %d" % (c, nc)
    return None
