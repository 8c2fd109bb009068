"""Heap model of syntax-tree nodes for the abstract interpreter: nodes are objects ("H", name) keyed by the AST overlay layout
(offset:size), wrappers Code<Kind> are one-pointer records.  Text is opaque: every string component is a placeholder, a string builder is a
handle whose content is the sequence of literals and placeholders appended so far."""
import re, json, os
import gx, absint
from absint import Interp, State, Rec, C0, C1, UND, is_c, is_addr
from gx import AnalysisBroken

ORACLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "oracle_text.json")))
SPEC_TRAILING = {"Const", "Final", "NoExceptions", "Override", "Pure", "Delete", "Volatile"}

def field(F, rec, name):
    r = F.records.get(rec)
    if r:
        for f in r["f"]:
            if f["n"] == name: return f
    raise AnalysisBroken("record %s has no field %s" % (rec, name))
def fkey(F, name, rec="AST"):
    f = field(F, rec, name)
    return "@%d:%d" % (f["off"], f["size"])
def wrap(p): return Rec(C0, {"ast": p})
def ptr(name): return ("addr", ("H", name), ())
def code(name): return wrap(ptr(name))
NULLCODE = wrap(C0)
def mkstr(t): return Rec(C0, {"Ptr": ("str", t), "Len": ("c", len(t))})
NULLSTR = Rec(C0, {"Ptr": C0, "Len": C0})

class Obj:
    """builder for one node"""
    def __init__(self, F, name, type=None, **kw):
        self.F = F; self.name = name; self.d = {}
        if type is not None: self.set("Type", ("c", F.enumvals("CodeType")[type]))
        for k, v in kw.items(): self.set(k, v)
    def set(self, f, v):
        if isinstance(v, str): v = mkstr(v)
        elif isinstance(v, bool) or isinstance(v, int): v = ("c", int(v))
        elif isinstance(v, Obj): v = code(v.name)
        elif v is None: v = NULLCODE
        self.d[fkey(self.F, f)] = v
        return self
    def put(self, st):
        st.mem[("H", self.name)] = Rec(C0, self.d)
        return self
def objname(v):
    """node name behind a Code wrapper or pointer value"""
    if isinstance(v, Rec): v = v.d.get("ast", UND)
    if is_addr(v) and v[1][0] == "H" and not v[2]: return v[1][1]
    return None
def specs(F, st, name, lst):
    o = Obj(F, name, "CT_Specifiers", NumEntries=len(lst))
    vals = F.enumvals("Specifier")
    o.d[fkey(F, "ArrSpecs")] = Rec(C0, {("i", ("c", i)): ("c", vals["Spec_" + s]) for i, s in enumerate(lst)})
    return o.put(st)

class TextInterp(Interp):
    """Interp + string builders"""
    TOPNAMES = ("self",)
    child_kind_chars = {}
    def __init__(self, F, models=None, **kw):
        Interp.__init__(self, F, models, **kw)
        m = self.models
        for n in F.byname:
            if n.startswith("strbuilder_append_"): m.setdefault(n, TextInterp.m_append)
            elif n.startswith("strbuilder_make_") and n not in ("strbuilder_make_space_for",): m.setdefault(n, TextInterp.m_make)
        for n in list(F.byname) + list(F.declbyname):
            if n in ("strbuilder_fmt_buf", "strbuilder_fmt"): m.setdefault(n, TextInterp.m_fmt)
        m.setdefault("strbuilder_duplicate", TextInterp.m_dup); m.setdefault("strbuilder_to_str", TextInterp.m_tostr)
        m.setdefault("strbuilder_length", TextInterp.m_len); m.setdefault("strbuilder_free", TextInterp.m_nop)
        m.setdefault("strbuilder_clear", TextInterp.m_clear); m.setdefault("strbuilder_join", None) or m.pop("strbuilder_join")
        m.setdefault("str_duplicate", TextInterp.m_sdup)
        for n in ("log_fmt", "assert_handler"): m.setdefault(n, TextInterp.m_nop)
    # ---- text helpers
    def sb_new(self, st, text=""):
        k = st.x.get("nsb", 0) + 1; st.x["nsb"] = k
        st.x[("sb", k)] = text
        return Rec(C0, {"Data": ("sb", k)})
    def sb_of(self, st, v):
        if is_addr(v): v = self.read(st, (v[1], v[2]))
        if isinstance(v, Rec): v = self.project(v, "Data")
        if type(v) is tuple and v[0] == "sb": return v
        if type(v) is tuple and v[0] == "str": return v
        return None
    def text_of_sb(self, st, v):
        h = self.sb_of(st, v)
        if h is None: return "\u27e8?\u27e9"
        if h[0] == "str": return h[1]
        return st.x[h]
    def text_of_str(self, st, v):
        if is_addr(v): v = self.read(st, (v[1], v[2]))
        if v == C0: return "(null)"
        if not isinstance(v, Rec): return "\u27e8?\u27e9"
        p, l = self.project(v, "Ptr"), self.project(v, "Len")
        return self.text_of_ptr(st, p, l)
    def text_of_ptr(self, st, p, l=None):
        if p == C0: return "(null)"
        t = None; off = 0
        if type(p) is tuple and p[0] == "str": t = p[1]
        elif is_addr(p) and p[1][0] == "S":
            t = p[1][1]
            if p[2] and is_c(p[2][-1][1]): off = p[2][-1][1][1]
        elif type(p) is tuple and p[0] == "sb": t = st.x[p]
        if t is None: return "\u27e8?\u27e9"
        if l is not None and is_c(l): return t[off:off + l[1]]
        return t[off:]
    def fmt(self, st, f, vals):
        out = ""; i = 0; n = 0
        while i < len(f):
            c = f[i]
            if c != "%": out += c; i += 1; continue
            if f[i + 1:i + 2] == "%": out += "%"; i += 2; continue
            m = re.match(r"%[-+# 0]*(\*|\d+)?(?:\.(\*|\d+))?(?:ll|l|h)?(SB|S|s|d|i|u|c|x|X|p|f)", f[i:])
            if not m: raise AnalysisBroken("format %r" % f)
            i += m.end()
            prec = None
            if m.group(1) == "*": n += 1
            if m.group(2) == "*": prec = vals[n] if n < len(vals) else None; n += 1
            v = vals[n] if n < len(vals) else UND; n += 1
            k = m.group(3)
            if k == "S": out += self.text_of_str(st, v)
            elif k == "SB": out += self.text_of_sb(st, v)
            elif k == "s": out += self.text_of_ptr(st, v, prec)
            elif is_c(v): out += chr(v[1]) if k == "c" else str(v[1])
            else: out += "\u27e8num\u27e9"
        return out
    # ---- models
    def m_append(self, e, st):
        n = e["n"]; out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone()
            vs = tuple(self.devalue(s, v) for v in vs)
            h = self.sb_of(s, vs[0])
            if n == "strbuilder_append_fmt":
                f = self.text_of_ptr(s, vs[1]); t = self.fmt(s, f, vs[2:])
            elif n in ("strbuilder_append_str",): t = self.text_of_str(s, vs[1])
            elif n in ("strbuilder_append_string", "strbuilder_append_strbuilder"): t = self.text_of_sb(s, vs[1])
            elif n == "strbuilder_append_char": t = chr(vs[1][1]) if is_c(vs[1]) else "\u27e8?\u27e9"
            elif n == "strbuilder_append_c_str_len": t = self.text_of_ptr(s, vs[1], vs[2])
            elif n == "strbuilder_append_c_str": t = self.text_of_ptr(s, vs[1])
            else: raise AnalysisBroken("unmodelled append %s" % n)
            if h is not None and h[0] == "sb": s.x[h] = s.x[h] + t
            self.on_append(s, e, h, t)
            out.append((s, C1))
        return out
    def on_append(self, st, e, h, t): pass
    def m_make(self, e, st):
        n = e["n"]; out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone()
            if n == "strbuilder_make_reserve": t = ""
            elif n == "strbuilder_make_str": t = self.text_of_str(s, vs[1])
            elif n == "strbuilder_make_length": t = self.text_of_ptr(s, vs[1], vs[2])
            else: t = self.text_of_ptr(s, vs[1])
            if t == "(null)": t = ""
            out.append((s, self.sb_new(s, t)))
        return out
    def m_fmt(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone(); k = 1 if e["n"] == "strbuilder_fmt_buf" else 3
            out.append((s, self.sb_new(s, self.fmt(s, self.text_of_ptr(s, vs[k]), vs[k + 1:]))))
        return out
    def m_dup(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone(); out.append((s, self.sb_new(s, self.text_of_sb(s, vs[0]))))
        return out
    def m_tostr(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            out.append((s, mkstr(self.text_of_sb(s, vs[0]))))
        return out
    def m_len(self, e, st):
        return [(s, ("c", len(self.text_of_sb(s, vs[0])))) for s, vs in self.evargs(e["a"], st)]
    def m_clear(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            h = self.sb_of(s, vs[0])
            if h is not None and h[0] == "sb": s = s.clone(); s.x[h] = ""
            out.append((s, UND))
        return out
    def m_nop(self, e, st): return [(s, C0) for s, vs in self.evargs(e["a"], st)]
    def m_sdup(self, e, st): return [(s, self.devalue(s, vs[0])) for s, vs in self.evargs(e["a"], st)]
    def read(self, st, loc):
        r = loc[0]
        if r[0] == "P" and type(r[1]) is tuple and r[1] and r[1][0] == "sb" and len(loc[1]) == 1 and type(loc[1][0]) is tuple and is_c(loc[1][0][1]):
            t = st.x[r[1]]; i = loc[1][0][1][1]
            if 0 <= i < len(t): return ("c", ord(t[i]))
            if i == len(t): return C0
            return st.fresh("oobchar")
        return Interp.read(self, st, loc)
