"""For every enumeration with a textual form the lookup functions are abstractly evaluated for each enumerator (constants through
their own source, statics at their initial value) and compared with the CSV the tables are generated from and with a fixed
oracle of C++ spellings; reverse lookups are evaluated for every text.  A subscript past the table's initialiser is a violation."""
import json, os, re, zlib, gx, absint
from absint import Rec, C0

ORACLE = json.load(open(os.path.join(gx.VERIF, "lib", "oracle_text.json")))
SETS = [  # csv, enum, prefix, to-text functions, from-text function, which carries the csv text
    ("ECodeTypes", "CodeType", "CT_", ("codetype_to_keyword_str",), None),
    ("EOperator", "Operator", "Op_", ("operator_to_str",), None),
    ("ESpecifier", "Specifier", "Spec_", ("spec_to_str",), "str_to_specifier"),
    ("ETokType", "TokType", "Tok_", ("toktype_to_str",), "str_to_toktype"),
]
FIXED = [  # hand-written tables: enum prefix text, function, {enumerator: text}
    ("access_spec_to_str", {"AccessSpec_Default": "", "AccessSpec_Private": "private", "AccessSpec_Protected": "protected", "AccessSpec_Public": "public"}),
    ("module_flag_to_str", {"ModuleFlag_None": "__none__", "ModuleFlag_Export": "export", "ModuleFlag_Import": "import"}),
    ("macrotype_to_str", {"MT_Statement": "Statement", "MT_Expression": "Expression", "MT_Typename": "Typename", "MT_Block_Start": "Block_Start",
                          "MT_Block_End": "Block_End", "MT_Case_Statement": "Case_Statement"}),
]
TRAILING = {"Const", "Final", "NoExceptions", "Override", "Pure", "Delete", "Volatile"}

class IP(absint.Interp):
    def __init__(self, F, rep, ctx):
        super().__init__(F, max_iter=400); self.initial_globals = True; self.rep = rep; self.oob = []
        self.models["crc32"] = self.crc
    def crc(self, ip, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            p = vs[0]; n = vs[1]
            if absint.is_addr(p) and p[1][0] == "S": p = ("str", p[1][1])
            if type(p) is not tuple or p[0] != "str" or not absint.is_c(n): return None
            out.append((s, ("c", zlib.crc32(p[1][:n[1]].encode("latin-1")) & 0xffffffff)))
        return out
    def read(self, st, loc):
        # subscript beyond the initialiser / declared extent of an array
        v = super().read(st, loc)
        for i, p in enumerate(loc[1]):
            if type(p) is tuple and p[0] == "i" and absint.is_c(p[1]) and loc[0][0] in ("G", "L"):
                b = self.root_value(st, loc[0])
                for q in loc[1][:i]: b = self.project(b, q)
                ext = self.extent(loc[0])
                if i == 0 and ext is not None and not 0 <= p[1][1] < ext: self.oob.append((loc[0], p[1][1], ext))
        return v
    def extent(self, root):
        if root[0] != "G": return None
        g = self.F.gid.get(root[1])
        t = self.F.type(g["t"]) if g else None
        if not t or t["k"] != "arr": return None
        m = re.search(r"\[(\d+)\]", t["c"])
        return int(m.group(1)) if m else None

def text(v):
    """Str value -> python text"""
    if not isinstance(v, Rec): return None
    p = v.d.get("Ptr", C0); n = v.d.get("Len", C0)
    if p == C0 and n == C0: return ""
    if type(p) is tuple and p[0] == "str" and absint.is_c(n): return p[1] if len(p[1]) == n[1] else "%s(length %d)" % (p[1], n[1])
    return None

def value(rep, F, fn, arg, who):
    ip = IP(F, rep, who)
    outs = ip.run(fn, [arg])
    vals = {v for s, v in outs}
    for root, i, ext in ip.oob:
        rep.bad("%s:%s:oob" % (fn, who), F.at(F.fn(fn)), "table-bounds", "%s(%s) reads entry %d of a table of %d" % (fn, who, i, ext))
    return next(iter(vals)) if len(vals) == 1 else ("set", frozenset(vals))

def csvrows(name):
    out = []
    with open(os.path.join(gx.REPO, "base", "enums", name + ".csv")) as f:
        for l in f:
            l = l.strip()
            if not l: continue
            a, _, b = l.partition(","); b = b.strip()
            if len(b) > 1 and b[0] == '"' and b[-1] == '"': b = b[1:-1]
            out.append((a.strip(), b))
    return out

def mkstr(s): return Rec(C0, {"Ptr": ("str", s), "Len": ("c", len(s))})

def check(rep):
    F = gx.extract("base")
    for csv, enum, pre, tos, frm in SETS:
        rows = csvrows(csv); names = [a for a, _ in rows]
        en = gx_enum(F, pre)
        vals = {n[len(pre):]: v for n, v in en.items()}
        rep.need("csv rows " + csv, len(rows), 25)
        # positions
        for i, (a, b) in enumerate(rows):
            if a not in vals: rep.bad("%s:%s:missing" % (enum, a), csv, "enum-vs-csv", "%s row %s has no enumerator" % (csv, a)); continue
            if vals[a] != i: rep.bad("%s:%s:pos" % (enum, a), csv, "enum-vs-csv", "%s%s is %d, row %d of %s" % (pre, a, vals[a], i, csv))
            else: rep.ok()
            o = ORACLE[csv].get(a)
            if o is not None and o != b: rep.bad("%s:%s:oracle" % (csv, a), "base/enums/%s.csv" % csv, "spelling", "%s spells %s as %r, expected %r" % (csv, a, b, o))
            else: rep.ok()
            for fn in tos:
                t = text(value(rep, F, fn, ("c", vals[a]), a))
                if t != b: rep.bad("%s:%s" % (fn, a), F.at(F.fn(fn)), "table-vs-csv", "%s(%s%s) yields %r, %s says %r" % (fn, pre, a, t, csv, b))
                else: rep.ok(); rep.sample("%s(%s%s) = %r" % (fn, pre, a, t))
        extra = [n for n in vals if n not in names and n not in ("NumTypes", "NumOps", "NumSpecifiers", "NumTokens", "UnderlyingType", "TypeMax") and not n.endswith("SizeDef")]
        for n in extra:
            fn = tos[0]
            nt = max(v for k, v in vals.items() if k.startswith("Num"))
            if vals[n] < nt:
                t = text(value(rep, F, fn, ("c", vals[n]), n))
                if enum == "TokType":
                    rowsA = dict(csvrows("AttributeTokens")); base = n[len("Attribute_"):] if n.startswith("Attribute_") else None
                    if base is not None and (base not in rowsA or rowsA[base] != t): rep.bad("%s:%s" % (fn, n), F.at(F.fn(fn)), "table-vs-csv", "%s yields %r, AttributeTokens.csv says %r" % (n, t, rowsA.get(base)))
                    else: rep.ok()
                else: rep.bad("%s:%s:extra" % (enum, n), F.at(F.fn(fn)), "enum-vs-csv", "enumerator %s%s is not in %s" % (pre, n, csv))
        if frm:
            owner = {}
            for a, b in rows:
                if a in vals: owner.setdefault(b, []).append(vals[a])
            inv = vals["Invalid"]
            for b, own in owner.items():
                v = value(rep, F, frm, mkstr(b), repr(b))
                if not absint.is_c(v) or v[1] not in own: rep.bad("%s:%s" % (frm, b), F.at(F.fn(frm)), "reverse-lookup", "%s(%r) yields %s, owned by %s" % (frm, b, v, own))
                else: rep.ok()
            for b in ("zzz_not_a_keyword", ""):
                v = value(rep, F, frm, mkstr(b), repr(b))
                if v != ("c", inv): rep.bad("%s:unknown" % frm, F.at(F.fn(frm)), "reverse-lookup", "%s of an unknown text yields %s" % (frm, v))
                else: rep.ok()
    # names of node kinds
    ct = gx_enum(F, "CT_")
    for a, b in csvrows("ECodeTypes"):
        if "CT_" + a in ct:
            t = text(value(rep, F, "codetype_to_str", ("c", ct["CT_" + a]), a))
            if t != a: rep.bad("codetype_to_str:%s" % a, F.at(F.fn("codetype_to_str")), "table-vs-csv", "codetype_to_str(CT_%s) yields %r" % (a, t))
            else: rep.ok()
    for fn, tab in FIXED:
        pre = next(iter(tab)).split("_")[0] + "_"
        en = gx_enum(F, pre)
        for n, t in tab.items():
            if n not in en: rep.bad("%s:%s:gone" % (fn, n), "?", "enum", "enumerator %s is gone" % n); continue
            g = text(value(rep, F, fn, ("c", en[n]), n))
            if g != t: rep.bad("%s:%s" % (fn, n), F.at(F.fn(fn)), "table", "%s(%s) yields %r" % (fn, n, g))
            else: rep.ok()
    sp = gx_enum(F, "Spec_")
    for a, _ in csvrows("ESpecifier"):
        v = value(rep, F, "spec_is_trailing", ("c", sp["Spec_" + a]), a)
        if v != ("c", int(a in TRAILING)): rep.bad("spec_is_trailing:%s" % a, F.at(F.fn("spec_is_trailing")), "table", "spec_is_trailing(%s) = %s" % (a, v))
        else: rep.ok()
    mt = gx_enum(F, "MT_"); tk = gx_enum(F, "Tok_")
    for m, t in (("MT_Statement", "Tok_Preprocess_Macro_Stmt"), ("MT_Expression", "Tok_Preprocess_Macro_Expr"), ("MT_Typename", "Tok_Preprocess_Macro_Typename")):
        v = value(rep, F, "macrotype_to_toktype", ("c", mt[m]), m)
        if v != ("c", tk[t]): rep.bad("macrotype_to_toktype:%s" % m, F.at(F.fn("macrotype_to_toktype")), "table", "macrotype_to_toktype(%s) = %s" % (m, v))
        else: rep.ok()

def gx_enum(F, pre):
    for e in F.enums.values():
        if e["e"] and e["e"][0][0].startswith(pre): return {x[0]: x[1] for x in e["e"]}
    raise gx.AnalysisBroken("enumeration %s* not found" % pre)
