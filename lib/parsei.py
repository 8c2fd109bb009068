"""Abstract interpreter for the parsing routines.

The token stream is abstract: the current token is an object ("H","tok<k>") about which only the facts tested on the path are known, every other token
is unconstrained.  Consuming a token replaces the current one by an unconstrained one.  Other parsing routines are producers: they yield a node of one
of their kinds, nothing, or the invalid node.  Construction functions yield a node that holds its arguments.  Nodes are heap objects; after every
statement those that no variable and no live node reaches any more are collected, and a collected node that was not handed to a container or to
another routine is a lost component of the path."""
import gx, absint, upf
from absint import Interp, State, Rec, Dom, TOP, C0, C1, UND, INF, is_c, is_addr
from astm import wrap, code, NULLCODE, fkey
from gx import AnalysisBroken

ANY = ("any",)
POS = ("pos",)      # some integer >= 1
NTOK = ("ntok",)
INVALID = code("INVALID")
_mc = {}
def mentions(v, out):
    """heap objects, tokens and identifier terms a value refers to -> set"""
    t = type(v)
    if t is Rec:
        mentions(v.base, out)
        for x in v.d.values(): mentions(x, out)
    elif t is tuple:
        if v and v[0] == "H" and len(v) == 2 and type(v[1]) is str: out.add(v[1]); return
        if v and v[0] == "ident": out.add(v); return
        for x in v:
            if type(x) in (tuple, Rec, frozenset): mentions(x, out)
    elif t is frozenset:
        for x in v: mentions(x, out)
EMPTY = frozenset()
def refs(v):
    t = type(v)
    if t is Rec:
        r = v._r
        if r is None:
            s = set(); mentions(v, s); r = v._r = frozenset(s)
        return r
    if t is tuple:
        if not v or len(v) <= 2 and v[0] in ("c", "str", "any", "und", "idx"): return EMPTY
        r = _mc.get(v)
        if r is None:
            s = set(); mentions(v, s); r = frozenset(s)
            if len(_mc) > 400000: _mc.clear()
            _mc[v] = r
        return r
    return EMPTY

NONCODE = ("AST",)
class ParserInterp(Interp):
    rec_depth = 2
    def __init__(self, F, spec, target, fail_eat=False, keep_tokens=False, **kw):
        self.names = kw.get("names", True)
        Interp.__init__(self, F, None, max_iter=kw.get("max_iter", 4), inline_depth=12)
        self.spec = spec; self.target = target; self.fail_eat = fail_eat; self.keep = keep_tokens
        self.ct = F.enumvals("CodeType"); self.tk = F.enumvals("TokType")
        self.NL = self.tk["Tok_NewLine"]; self.CM = self.tk["Tok_Comment"]; self.ID = self.tk["Tok_Identifier"]
        self.EXPORT = self.tk["Tok_Module_Export"]; self.MFX = F.enumvals("ModuleFlag")["ModuleFlag_Export"]
        self.PARENT = fkey(F, "Parent"); self.TYPE = fkey(F, "Type"); self.NAME = fkey(F, "Name"); self.CONTENT = fkey(F, "Content"); self.MF = fkey(F, "ModuleFlags")
        self.ctor = {}
        for c in upf.TABLE: self.ctor[c.fn] = c
        M = self.models
        M["lex_current"] = ParserInterp.m_cur
        for n in ("lex_next", "lex_peek", "lex_previous"): M[n] = ParserInterp.m_othertok
        M["lex__eat"] = ParserInterp.m_eat
        M["array_num<gen::Token>"] = lambda ip, e, st: [(s, NTOK) for s, vs in ip.evargs(e["a"], st)]
        for n in ("parser_push", "parser_pop", "log_fmt", "strbuilder_free", "array_free<gen::CodeTypename>", "assert_handler"): M[n] = ParserInterp.m_nop
        for n in ("parser_to_strbuilder", "code_debug_str", "toktype_to_str", "spec_to_str", "tok_to_strbuilder", "lex", "str_to_specifier", "str_contains", "str_are_equal",
                  "c_str_compare_len", "c_str_compare", "_check_parse_args", "char_is_space", "strbuilder_back", "arena_init_from_memory", "arena_allocator_info", "strbuilder_length",
                  "str_to_operator", "macrotype_to_str", "codetype_to_str", "c_str_len", "str_to_macro_type", "str_starts_with", "c_str_fmt_buf"):
            M[n] = ParserInterp.m_any
        M["code_duplicate"] = lambda ip, e, st: [(s, ip.devalue(s, vs[0])) for s, vs in ip.evargs(e["a"], st)]
        for n in F.byname:
            if n.endswith("_to_strbuilder") and n.startswith(("attributes_", "specifiers_", "code_", "typename_", "params_")): M[n] = ParserInterp.m_text
            elif n.endswith("_to_strbuilder_ref"): M[n] = ParserInterp.m_sbappend_ref
        M["lookup_macro"] = ParserInterp.m_macro
        M["make_code"] = ParserInterp.m_make_code
        M["cache_str"] = ParserInterp.m_cache
        M["body_append"] = M["params_append"] = M["define_params_append"] = M["code_append"] = M["specifiers_append"] = ParserInterp.m_take
        M["array_append<gen::CodeTypename>"] = ParserInterp.m_take
        M["array_init_reserve<gen::CodeTypename>"] = ParserInterp.m_arr
        M["array_num<gen::CodeTypename>"] = ParserInterp.m_any
        M["register_macro"] = ParserInterp.m_register
        for n in F.byname:
            if n.startswith(("strbuilder_append_",)): M[n] = ParserInterp.m_sbappend
            elif n.startswith("strbuilder_make_"): M[n] = ParserInterp.m_sbmake
            elif n.startswith("def_") and n not in self.ctor: M[n] = ParserInterp.m_defother
        for n in ("strbuilder_to_str", "parser_strip_formatting", "str_duplicate", "str_trim_space", "strbuilder_strip_space", "strbuilder_trim_space", "str_visualize_whitespace", "strbuilder_fmt_buf", "strbuilder_join"): M[n] = ParserInterp.m_text
        for n in self.ctor: M[n] = ParserInterp.m_def
        for n in spec:
            M[n] = ParserInterp.m_producer
        self.gcode = {}; self.gnode = {}
        for g in F.gid.values():
            ty = F.type(g["t"])["s"].replace("gen::", "")
            if ty in GKIND and g["n"] != "Code_Invalid":
                self.gcode[g["id"]] = (g["n"], ty); n = "g:" + g["n"]
                d = {self.PARENT: NULLCODE}
                if GKIND[ty]: d[self.TYPE] = ("c", self.ct[GKIND[ty]])
                self.gnode[n] = Rec(("mem", ("H", n)), d)
        self.viol = []; self.rets = []; self.wlog = []
        self.gname = {}
        for g in F.gid.values(): self.gname.setdefault(g["n"], g["id"])
        self.nulls = []
        self.hmark = 0
    # ---- values
    def arith(self, st, op, a, b):
        if a == NTOK and op == "-": return ("op", "-", a, b) if type(b) is tuple and b[0] == "idx" else ANY
        if is_c(a) and is_c(b): return Interp.arith(self, st, op, a, b)
        if op == "+" and POS in (a, b) and (a == b or is_c(a) and a[1] >= 0 or is_c(b) and b[1] >= 0): return POS
        if op in ("&", "|") : 
            if a == ANY or b == ANY: return ANY
            return ("op", op, a, b)
        if op == "+" and type(a) is tuple and a[0] == "idx" or type(a) is tuple and a[:1] == ("tokarr",): return ANY
        if is_addr(a) and op in "+-" and is_c(b): return Interp.arith(self, st, op, a, b)
        if op in ("+", "-") and is_c(b) and self.tokkind(a):
            d = self.getdom(st, a)
            if d.inn is not None and len(d.inn) <= 16: return ("kinds", frozenset(x + b[1] if op == "+" else x - b[1] for x in d.inn if d.has(x)))
        return ANY
    def tokkind(self, t): return type(t) is tuple and len(t) == 3 and t[0] == "fld" and t[2] == "Type"
    def project(self, v, p):
        if v == ANY or v == ("mem", ANY): return ANY
        if type(v) is tuple and v and v[0] in ("mem", "fld") and v[1] == ("tokarr",): return ANY
        return Interp.project(self, v, p)
    def getdom(self, st, t):
        if t == POS: return Dom(lo=1)
        if type(t) is tuple and t[0] == "op" and t[1] == "-" and t[2] == NTOK:
            return st.dom.get(t, Dom(lo=0))
        return Interp.getdom(self, st, t)
    def refine_in(self, st, t, vals):
        if t == ANY or t == UND or t == POS: return st.clone()
        return Interp.refine_in(self, st, t, vals)
    def refine(self, st, t, op, c):
        if t == ANY or t == UND: return st
        if t == POS: return Interp.refine(self, st, t, op, c) and st
        if type(t) is tuple and t[0] == "op" and t[1] == "-" and t[2] == NTOK and t not in st.dom:
            st = st.clone(); st.dom[t] = Dom(lo=0)
        return Interp.refine(self, st, t, op, c)
    def cmpterm(self, st, op, a, b):
        if a == ANY or b == ANY: return ("anycmp",)
        for x, y in ((a, b), (b, a)):
            if type(x) is tuple and x[0] in ("idx", "ntok", "tokarr"): return ("anycmp",) if y != C0 or x[0] != "idx" else ("cmp", op, a, b)
        return Interp.cmpterm(self, st, op, a, b)
    def branch(self, st, v):
        if type(v) is tuple and v and v[0] == "cmp" and (v[2] == UND or v[3] == UND or (isinstance(v[2], tuple) and "und" in repr(v[2]))):
            return [(st, True), (st.clone(), False)]
        if v == ("anycmp",) or v == ANY: return [(st, True), (st.clone(), False)]
        if type(v) is tuple and v and v[0] == "cmp" and (v[2] == ("anycmp",) or v[3] == ("anycmp",)): return [(st, True), (st.clone(), False)]
        if type(v) is tuple and v and v[0] == "sb": return [(st, True)]
        return Interp.branch(self, st, v)
    def tobool(self, st, v):
        if v == ANY or v == ("anycmp",): return ANY
        return Interp.tobool(self, st, v)
    def read(self, st, loc):
        r = loc[0]
        if r == ("P", ("tokarr",)) or r == ("P", ANY): return ANY
        if r == ("H", "ctx") and loc[1][:2] == ("parser", "Tokens"):
            if loc[1][2:3] == ("Idx",): return ("idx", st.x["cur"])
            if loc[1][2:3] == ("Arr",): return ("tokarr",) if len(loc[1]) == 3 else ("tokarr",)
            return Rec(C0, {"Arr": ("tokarr",), "Idx": ("idx", st.x["cur"])})
        if r == ("H", "ctx"): return ANY
        if r == ("H", "anytok"): return ANY
        return Interp.read(self, st, loc)
    def default(self, st, root):
        if root[0] == "P" and (root[1] == ANY or root[1] == ("tokarr",)): return ANY
        if root[0] == "G" and root[1] in self.gcode: return code("g:" + self.gcode[root[1]][0])
        if root[0] == "H" and root[1][:2] == "g:": return self.gnode[root[1]]
        return Interp.default(self, st, root)
    def deref(self, st, v, node, what="*"):
        if v == ANY or v == ("tokarr",) or (type(v) is tuple and v and v[0] in ("sb", "idx")): return [(st, (("P", ANY), ()))]
        return Interp.deref(self, st, v, node, what)
    def write(self, st, loc, val, node=None):
        r = loc[0]
        if r in (("P", ANY), ("P", ("tokarr",)), ("H", "ctx"), ("H", "anytok")):
            # a name kept only in the parser's scope record counts as handed over
            for x in refs(val):
                if ("tlab", x) in st.x and not any(x in refs(v) for q, v in st.mem.items() if q[0] not in ("H", "T")): st.x[("used", x)] = 1
            return
        if r[0] == "G" and self.F.gid.get(r[1], {}).get("n") == "_ctx": return
        if r[0] == "L" and loc[1] and type(loc[1][0]) is tuple and self.is_specarr(r):
            st.x[("specarr", r)] = 1; return
        if val == ANY and loc[1] and loc[1][-1] == "Len" and len(loc[1]) >= 2 and loc[1][-2] == "Text": val = POS     # the text of at least one token
        Interp.write(self, st, loc, val, node)
    def is_specarr(self, r):
        t = self.vtypes.get(r[2])
        return t is not None and t.startswith("Specifier") and "[" in t
    vtypes = {}
    def declare(self, v, st):
        ty = self.F.type(v["t"])
        if ty["s"].endswith("StackNode"):
            st.mem[("L", len(self.stack), v["id"])] = ANY; return [st]
        if ty["k"] == "arr":
            self.vtypes[v["id"]] = ty["s"]
            st.mem[("L", len(self.stack), v["id"])] = ANY; return [st]
        return Interp.declare(self, v, st)
    def on_null(self, st, node, val, what):
        self.nulls.append((what, self.F.byid[self.stack[-1]]["n"] if self.stack else "?", st.trace))
    # ---- tokens
    def tok(self, n): return ("H", "tok%d" % n)
    def typeterm(self, n): return ("fld", ("mem", self.tok(n)), "Type")
    def advance(self, st, ident=False):
        """consume the current token"""
        st = st.clone()
        cur = st.x["cur"]
        if ident and self.names and len(self.stack) == 1 and any(("tok%d" % cur) in refs(v) for r, v in st.mem.items() if r[0] == "L" and r[1] == 1): self.named(st, "tok%d" % cur)
        live = set()
        for r, v in st.mem.items():
            if r[0] == "H" and r[1].startswith("tok"): continue
            live |= refs(v)
        n = cur
        if self.keep or ("tok%d" % cur) in live:
            n = 1
            while n == cur or ("tok%d" % n) in live or (self.keep and n <= st.x.get("maxtok", cur)): n += 1
            if self.keep: st.x["maxtok"] = max(n, st.x.get("maxtok", 0))
        st.x["cur"] = n
        if self.keep: st.x["seq"] = st.x.get("seq", ()) + (n,)
        else: self.gcfacts(st, live - {"tok%d" % n} if n == cur else live)
        for k in [k for k in st.x if type(k) is tuple and k[0] == "prog"]: st.x[k] = 1
        return st
    def gcfacts(self, st, live):
        cur = st.x["cur"]
        def dead(t):
            for x in refs(t):
                if type(x) is str and x.startswith("tok") and (x not in live): return True
            return False
        drop = [t for t in st.dom if dead(t) or ("idx" in repr(t) and t[0] == "op" and t[2] == NTOK)]
        for t in drop: del st.dom[t]
        for t in [t for t in st.truth if dead(t)]: del st.truth[t]
    names = True
    watch = None; first = {}; byarg = {}; arg0 = None
    def named(self, st, x):
        """x (a token or identifier term) now stands for an identifier that was read"""
        st.x[("tlab", x)] = "an identifier"
        st.x.pop(("used", x), None)
        b = ("mem", ("H", x)) if type(x) is str else x
        if type(x) is str:
            for f, v in (("Len", 0), ("Ptr", 0)):
                t = ("fld", ("fld", b, "Text"), f)
                st.dom[t] = Dom(lo=1)
    def vacuous(self, st, x):
        """the path has established that the identifier x is absent"""
        b = ("mem", ("H", x)) if type(x) is str else x
        for f in ("Len", "Ptr"):
            t = ("fld", ("fld", b, "Text"), f)
            if t in st.dom and st.dom[t].only() == 0 or st.truth.get(t) is False: return True
        t = ("fld", b, "Type")
        return t in st.dom and st.dom[t].only() == self.F.enumvals("TokType")["Tok_Invalid"]
    def m_cur(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            skip = vs[1]
            if skip == C0: out.append((s, ("addr", self.tok(s.x["cur"]), ()))); continue
            t = self.typeterm(s.x["cur"]); d = self.getdom(s, t)
            s1 = self.refine(s, t, "!=", self.NL)
            if s1 is not None: s1 = self.refine(s1, t, "!=", self.CM)
            if s1 is not None: out.append((s1, ("addr", self.tok(s1.x["cur"]), ())))
            if d.has(self.NL) or d.has(self.CM):
                s2 = s if s1 is None else self.advance(s)
                if s1 is None: s2 = self.advance(s)
                t = self.typeterm(s2.x["cur"])
                s2 = self.refine(s2, t, "!=", self.NL); s2 = self.refine(s2, t, "!=", self.CM)
                out.append((s2, ("addr", self.tok(s2.x["cur"]), ())))
        return self.dedupe_vals(out) if len(out) > 2 else out
    def m_othertok(self, e, st):
        return [(s, ("addr", ("H", "anytok"), ())) for s, vs in self.evargs(e["a"], st)]
    def m_eat(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            want = vs[1]; t = self.typeterm(s.x["cur"]); d = self.getdom(s, t)
            d0 = d
            if is_c(want):
                w = want[1]
                if not d.has(w) and (d.has(self.NL) or d.has(self.CM)):     # skips one formatting token, then needs the wanted one
                    s = self.advance(s); t = self.typeterm(s.x["cur"]); d = self.getdom(s, t)
                if d.has(w) or w == self.ID:
                    s1 = s if w == self.ID else self.refine(s, t, "==", w)
                    s1 = self.advance(s1, w == self.ID)
                    if w == self.EXPORT: s1.x["export"] = 1
                    if w == self.watch and len(self.stack) == 1: s1.x["ate"] = 1
                    out.append((s1, C1))
                if self.fail_eat and d0.only() != w:
                    s2 = self.refine(s, t, "!=", w)
                    if s2 is not None: s2 = s2.clone(); s2.x["failed"] = 1; out.append((s2, C0))
            elif want == t:
                if d.only() == self.EXPORT: s = s.clone(); s.x["export"] = 1
                if d.only() == self.watch and len(self.stack) == 1: s = s.clone(); s.x["ate"] = 1
                out.append((self.advance(s, d.only() == self.ID), C1))
            else:
                out.append((self.advance(s), C1))
                if self.fail_eat: s2 = s.clone(); s2.x["failed"] = 1; out.append((s2, C0))
        return out
    # ---- simple models
    def m_nop(self, e, st): return [(s, UND) for s, vs in self.evargs(e["a"], st)]
    def m_any(self, e, st): return [(s, ANY) for s, vs in self.evargs(e["a"], st)]
    def m_macro(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st): out += [(s.clone(), C0), (s, ("addr", ("H", "anytok"), ()))]
        return out
    def srcs(self, st, v):
        """identifier terms and text sources a text value is made of"""
        v = self.devalue(st, v)
        if is_addr(v) and v[1][0] in ("L", "T"): v = self.read(st, (v[1], v[2]))
        if type(v) is tuple and v and v[0] == "sb": return v[1]
        self.span(st, v)
        return frozenset(x if type(x) is tuple else ("H", x) for x in refs(v) if type(x) is tuple or x[0] == "n" and x[1:].isdigit() or ("tlab", x) in st.x)
    def m_sbmake(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            src = frozenset()
            for v in vs[1:]: src |= self.srcs(s, v)
            out.append((s, ("sb", src)))
        return out
    def m_sbappend(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone(); src = self.srcs(s, vs[0])
            for v in vs[1:]: src |= self.srcs(s, v)
            if is_addr(vs[0]): self.write(s, (vs[0][1], vs[0][2]), ("sb", src), e)
            out.append((s, C1))
        return out
    def m_sbappend_ref(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone(); src = self.srcs(s, vs[0])
            if is_addr(vs[1]): self.write(s, (vs[1][1], vs[1][2]), ("sb", src | self.srcs(s, vs[1])), e)
            out.append((s, UND))
        return out
    def m_text(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            src = frozenset()
            for v in vs: src |= self.srcs(s, v)
            out.append((s, ("sb", src)))
        return out
    def m_cache(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            out.append((s, ("cached", self.srcs(s, vs[0]))))
        return out
    def m_register(self, e, st):
        return [(s, UND) for s, vs in self.evargs(e["a"], st)]
    # ---- nodes
    def newnode(self, st, label, typ=None, edges=(), prefix="n", base=None):
        live = {r[1] for r in st.mem if r[0] == "H"}
        k = 1
        while "%s%d" % (prefix, k) in live: k += 1
        n = "%s%d" % (prefix, k); root = ("H", n)
        d = {}
        if base is None: base = ("mem", root)
        if base[0] == "mem": d[self.PARENT] = NULLCODE
        if edges: d["edges"] = tuple(edges)
        if typ is not None and len(typ) == 1: d[self.TYPE] = ("c", typ[0])
        st.mem[root] = Rec(base, d)
        for t in [t for t in st.dom if n in refs(t)]: del st.dom[t]
        for t in [t for t in st.truth if n in refs(t)]: del st.truth[t]
        if typ is not None and len(typ) > 1:
            st.dom[("fld", ("mem", root), self.TYPE)] = Dom(min(typ), max(typ), frozenset(), frozenset(typ))
        st.x[("lab", n)] = label
        return code(n)
    def m_make_code(self, e, st):
        st = st.clone()
        return [(st, self.newnode(st, "a new node", base=C0))]
    def m_arr(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone(); live = {r[1] for r in s.mem if r[0] == "H"}; k = 1
            while "arr%d" % k in live: k += 1
            s.mem[("H", "arr%d" % k)] = Rec(C0, {}); out.append((s, ("addr", ("H", "arr%d" % k), ())))
        return out
    def nodes_in(self, v):
        return [x for x in refs(v) if type(x) is str and x[0] in "na" and x[-1].isdigit() and not x.startswith("anytok")]
    def closure(self, st, names):
        seen = set(); work = list(names)
        while work:
            n = work.pop()
            if n in seen: continue
            seen.add(n)
            v = st.mem.get(("H", n))
            if v is not None: work += [x for x in self.nodes_in(v)]
        return seen
    def pin(self, st, x):
        """x was read after the tokens that stretched texts start with"""
        pins = set()
        for i in self.stretched(): mentions(st.mem.get(("L", 1, i)), pins)
        pins = frozenset(y if type(y) is tuple else ("H", y) for y in pins if type(y) is tuple or y.startswith("tok"))
        if pins: st.x[("pins", x)] = pins
    def stretched(self):
        """locals of the analysed routine whose text length is assigned somewhere in it"""
        f = self.F.byid[self.stack[0]]; k = ("stretch", f["id"])
        if k not in self.dcache:
            acc = set()
            def w(x):
                if type(x) is dict:
                    if x.get("k") == "asg" and x["x"]["k"] == "mem" and x["x"]["n"] == "Len":
                        b = x["x"]
                        while b["k"] == "mem": b = b["b"]
                        if b["k"] == "var": acc.add(b["id"])
                    for y in x.values():
                        if type(y) in (dict, list): w(y)
                elif type(x) is list:
                    for y in x: w(y)
            w(f["b"]); self.dcache[k] = acc
        return self.dcache[k]
    def span(self, st, v):
        """a text whose length was stretched over what was read since its first token stands for everything read since then"""
        if not (isinstance(v, Rec) and v.d.get("Len") in (ANY, POS)): return
        have = frozenset(x if type(x) is tuple else ("H", x) for x in refs(v))
        for k, p in list(st.x.items()):
            if type(k) is tuple and k[0] == "pins" and p & have and k[1] not in refs(v): st.x[("used", k[1])] = 1; del st.x[k]
    def take(self, st, v, e=None):
        """everything reachable from v is handed over"""
        rr = set(refs(v))
        for n in self.closure(st, self.nodes_in(v)): st.x[("used", n)] = 1; rr |= refs(st.mem.get(("H", n)))
        for x in rr:
            if ("tlab", x) in st.x: st.x[("used", x)] = 1
        for i in refs(v):
            if type(i) is tuple: st.x[("used", i)] = 1
        if v == ("c", self.MFX) or (isinstance(v, Rec) and any(x == ("c", self.MFX) for x in v.d.values())): st.x["export_used"] = 1
        if is_addr(v) and v[1][0] == "L": st.x.pop(("specarr", v[1]), None)
    def m_take(self, e, st):
        """container, element: the element now belongs to the container"""
        out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone()
            for v in vs[1:]:
                v = self.devalue(s, v)
                self.take(s, v, e)
                if e["n"].startswith("array_append"):
                    t = vs[0]
                    if is_addr(t) and t[1][0] in ("L",): t = self.read(s, (t[1], t[2]))
                    for a in self.nodes_in(t):
                        if a.startswith("arr"): s.mem[("H", a)] = Rec(C0, {"filled": C1}); s.x[("lab", a)] = "the interface list"
                if v == INVALID: s.x["took_invalid"] = 1
            out.append((s, UND))
        return out
    def m_defother(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone()
            for v in vs: v = self.devalue(s, v); self.take(s, v, e); self.span(s, v)
            typ = None
            if e["n"] == "def_operator":
                b = self.project(self.devalue(s, vs[2]), "body") if len(vs) > 2 and vs[2] != UND else NULLCODE
                fwd = b in (C0, NULLCODE, UND)
                typ = [self.ct[t] for t in (("CT_Operator_Fwd", "CT_Operator_Member_Fwd") if fwd else ("CT_Operator", "CT_Operator_Member"))]
            if e["n"].startswith("def_specifier"): typ = [self.ct["CT_Specifiers"]]
            out.append((s, self.newnode(s, "the result of " + e["n"], typ)))
        return out
    def m_def(self, e, st):
        out = []
        c = self.ctor[e["n"]]
        for s, vs in self.evargs(e["a"], st):
            s = s.clone(); vs = [self.devalue(s, v) for v in vs]
            names = []; bad = False; ids = frozenset(); body = False; pres = {}
            args = dict(zip([a.name for a in c.args], vs))
            if c.opts is not None and len(vs) > len(c.args):
                o = vs[len(c.args)]
                for a in c.opts: args[a.name] = self.project(o, a.name) if o != UND else UND
            for k, v in args.items():
                names += self.nodes_in(v); self.span(s, v)
                if v == INVALID: bad = True
                pres[k] = 0 if v in (C0, NULLCODE, UND) or v == ("c", 0) else 1
                if v == ("c", self.MFX): s.x["export_used"] = 1
                ids |= frozenset(i if type(i) is tuple else ("H", i) for i in refs(v) if type(i) is tuple or ("tlab", i) in s.x)
                if is_addr(v) and v[1][0] == "L": s.x.pop(("specarr", v[1]), None)
            if c.fn == "def_enum":
                sv = args.get("specifier"); pres["specifier"] = 1 if is_c(sv) and sv[1] == self.F.enumvals_flat("EnumDecl_Class") else 0
            if bad:
                out.append((s, INVALID)); continue
            typ = [self.ct[c.tag(pres)]]
            v = self.newnode(s, "the result of " + e["n"], typ, edges=tuple(code(n) if n[0] == "n" else ("addr", ("H", n), ()) for n in sorted(set(names))))
            if ids:
                r = ("H", self.nodes_in(v)[0]); rec = s.mem[r]; d = dict(rec.d); d["ids"] = ids; s.mem[r] = Rec(rec.base, d)
            out.append((s, v))
        return out
    # ---- producers
    def m_producer(self, e, st):
        n = e["n"]; sp = self.spec[n]; out = []
        for s, vs in self.evargs(e["a"], st):
            s = s.clone()
            for v in vs:
                v = self.devalue(s, v)
                if is_addr(v) and v[1][0] in ("L", "T"): self.write(s, (v[1], v[2]), ANY, e)
            if sp.get("null"):          # nothing made: what was passed is still the caller's
                s0 = self.advance(s); s0.x["last"] = n; out.append((s0, NULLCODE))
            for v in vs: self.take(s, self.devalue(s, v), e)
            if any(self.devalue(s, v) == INVALID for v in vs): s.x["took_invalid"] = 1
            k = sp["ret"]; s.x["last"] = n
            if k == "void": out.append((self.advance(s), UND)); continue
            if k == "token":
                s = self.advance(s)
                i = 1
                live = set()
                for v in s.mem.values(): live |= refs(v)
                while ("ident", i) in live: i += 1
                s.x.pop(("used", ("ident", i)), None)
                for t in [t for t in s.dom if ("ident", i) in refs(t)]: del s.dom[t]
                if self.names: self.named(s, ("ident", i)); self.pin(s, ("ident", i))
                out.append((s, ("ident", i))); continue
            if k == "bool": out.append((s, ANY)); continue
            if sp["invalid"]:
                s2 = self.advance(s); out.append((s2, INVALID))
            if sp["tags"]:
                s3 = self.advance(s); tags = sp["tags"]
                if n in self.byarg and vs:
                    a = self.devalue(s, vs[0])
                    w = a[1] if is_c(a) else self.getdom(s, a).only() if a not in (ANY, UND) else None
                    tags = self.byarg[n].get(w, tags)
                nv = self.newnode(s3, "the %s parsed by %s" % (sp["what"], n), [self.ct[t] for t in tags])
                self.pin(s3, self.nodes_in(nv)[0])
                out.append((s3, nv))
        return out
    # ---- collection
    def live_state(self, st):
        roots = set()
        for r, v in st.mem.items():
            if r[0] != "H": roots.update(self.nodes_in(v))
        return self.closure(st, roots)
    def collect(self, st):
        """drop unreachable nodes; a dropped one that was not handed over is lost"""
        live = self.live_state(st)
        pins = [k for k in st.x if type(k) is tuple and k[0] == "pins"]
        if pins:
            held = set()
            for r, v in st.mem.items():
                if r[0] != "H": mentions(v, held)
            for k in pins:
                p = frozenset(x for x in st.x[k] if (x[1] if x[0] == "H" else x) in held)
                if not p or ("used", k[1]) in st.x: del st.x[k]
                else: st.x[k] = p; live = live | {k[1]}
        dead = [r for r in st.mem if r[0] == "H" and r[1] not in live and (r[1][0] == "n" or r[1].startswith("arr"))]
        for r in dead:
            n = r[1]
            if ("lab", n) in st.x and ("used", n) not in st.x:
                st.x["lost"] = st.x.get("lost", frozenset()) | {(st.x[("lab", n)], st.x.get("last", ""))}
            st.x.pop(("lab", n), None); st.x.pop(("used", n), None); st.x.pop(("pins", n), None); st.mem.pop(r)
        if dead:
            dn = {r[1] for r in dead}
            for t in [t for t in st.dom if refs(t) & dn]: del st.dom[t]
            for t in [t for t in st.truth if refs(t) & dn]: del st.truth[t]
        idl = set(); tl = set()
        for v in st.mem.values(): tl |= refs(v)
        for k in [k for k in st.x if type(k) is tuple and k[0] == "tlab" and k[1] not in tl and ("pins", k[1]) not in st.x]:
            if ("used", k[1]) not in st.x and not self.vacuous(st, k[1]): st.x["lost"] = st.x.get("lost", frozenset()) | {(st.x[k], st.x.get("last", ""))}
            del st.x[k]; st.x.pop(("used", k[1]), None)
        idl = {x for x in tl if type(x) is tuple}
        for t in [t for t in st.dom if any(type(x) is tuple and x not in idl for x in refs(t))]: del st.dom[t]
        for k in [k for k in st.x if type(k) is tuple and k[0] == "used" and type(k[1]) is tuple and k[1] not in idl]: del st.x[k]
    def exec(self, n, states):
        o = Interp.exec(self, n, states)
        if n is not None and len(self.stack) == 1 and n["k"] in ("expr", "decl", "if", "switch", "while", "for", "do", "blk"):
            ids = self.declids(n) if n["k"] != "decl" else ()
            for k in ("norm", "cont", "brk"):
                for s in o[k]:
                    for i in ids: s.mem.pop(("L", 1, i), None)
                    for r in [r for r in s.mem if r[0] == "T" or (r[0] == "L" and r[1] > 1)]: del s.mem[r]
                    self.collect(s)
                if len(o[k]) > 1: o[k] = self.thin(self.dedupe(o[k]))
        return o
    def declids(self, n):
        r = self.dcache.get(id(n))
        if r is None:
            acc = []
            def w(x):
                if type(x) is dict:
                    if x.get("k") == "decl": acc.extend(v["id"] for v in x["v"] if "id" in v)
                    for y in x.values():
                        if type(y) in (dict, list): w(y)
                elif type(x) is list:
                    for y in x: w(y)
            w(n); r = self.dcache[id(n)] = acc
        return r
    dcache = {}
    def on_cut(self, n, states):
        self.cut_states.setdefault(n["l"], []).extend(states)
    def at_head(self, n, states, it):
        """at a loop head nothing is assumed about the current token, and objects are named in a canonical order"""
        if self.keep: return states
        cnt = self.counters(n) if it >= 1 else {}
        for s in states:
            for i, upward in cnt.items():
                r = ("L", len(self.stack), i); v = s.mem.get(r)
                if v is not None and is_c(v):
                    if not upward: s.mem[r] = ANY
                    elif v[1] >= 1: s.mem[r] = POS
            self.gcfacts(s, frozenset())
            if s.x.get("export_used"): s.x.pop("export", None); s.x.pop("export_used")
            if len(self.stack) == 1:
                for r in [r for r in s.mem if r[0] == "T" or (r[0] == "L" and r[1] > 1)]: del s.mem[r]
                self.collect(s); self.canonical(s)
        return self.thin(self.dedupe(states), self.hlimit)
    limit = 30; hlimit = 12
    def thin(self, states, limit=None):
        """of many states keep a subset that still exhibits every pair of (variable, present / absent / constant) combinations"""
        if len(states) <= (limit or self.limit) or self.keep: return states
        self.thinned = getattr(self, "thinned", 0) + 1
        pairs = set(); out = []
        for s in states:
            f = []
            for r, v in s.mem.items():
                if r[0] == "L":
                    if isinstance(v, Rec) and "ast" in v.d: v = v.d["ast"]
                    f.append((r, v if is_c(v) else "inv" if v == ("addr", ("H", "INVALID"), ()) else "set"))
                elif r[0] == "H":
                    for k, x in s.mem[r].d.items() if isinstance(s.mem[r], Rec) else ():
                        if k == self.TYPE: f.append((r, x if is_c(x) else "?"))
                        else: f.append((r[1], k, "0" if x in (C0, NULLCODE) else "1"))
            for k, v in s.x.items():
                if k != "cur": f.append((k, v))
            new = False
            for i in range(len(f)):
                for j in range(i, len(f)):
                    p = (f[i], f[j]) 
                    if p not in pairs: pairs.add(p); pairs.add((f[j], f[i])); new = True
            if new: out.append(s)
        return out
    def counters(self, n):
        """locals a loop counts: {id: only upwards}"""
        k = ("cnt", id(n))
        if k in self.dcache: return self.dcache[k]
        up = set(); down = set()
        def w(x):
            if type(x) is dict:
                if x.get("k") == "un" and x.get("o") in ("++", "--") and x["e"]["k"] == "var" and x["e"]["s"] == "l": (up if x["o"] == "++" else down).add(x["e"]["id"])
                if x.get("k") == "asg" and x.get("o") in ("+=", "-=") and x["x"]["k"] == "var" and x["x"]["s"] == "l": (up if x["o"] == "+=" and x["y"].get("cv", -1) >= 0 else down).add(x["x"]["id"])
                for y in x.values():
                    if type(y) in (dict, list): w(y)
            elif type(x) is list:
                for y in x: w(y)
        w(n)
        r = self.dcache[k] = {i: i not in down for i in up | down}
        return r
    def canonical(self, st):
        for r in list(st.mem):
            if r[0] == "H" and ("used", r[1]) in st.x and not any(type(k) is str and k == "edges" for k in st.mem[r].d):
                if st.mem[r].base != C0: st.mem[r] = Rec(("mem", r), {self.PARENT: NULLCODE}); st.x[("lab", r[1])] = "used"
        order = []
        def visit(v):
            t = type(v)
            if t is Rec:
                visit(v.base)
                for k in sorted(v.d, key=repr): visit(v.d[k])
            elif t is tuple:
                if v and v[0] == "H" and len(v) == 2 and type(v[1]) is str: name(v[1]); return
                if v and v[0] == "ident": name(v); return
                for x in v:
                    if type(x) in (tuple, Rec): visit(x)
        ren = {}; cnt = {}
        def name(x):
            if x in ren: return
            if type(x) is tuple:
                if type(x[1]) is not int: return
                cnt["i"] = cnt.get("i", 0) + 1; ren[x] = ("ident", cnt["i"]); return
            p = "tok" if x.startswith("tok") else "arr" if x.startswith("arr") else "n" if x[0] == "n" else None
            if p is None: return
            cnt[p] = cnt.get(p, 0) + 1; ren[x] = p + str(cnt[p])
            r = ("H", x)
            if r in st.mem: visit(st.mem[r])
        for r in sorted((r for r in st.mem if r[0] != "H"), key=repr): visit(st.mem[r])
        for r in sorted((r for r in st.mem if r[0] == "H" and r[1] not in ren), key=repr): name(r[1])
        name("tok%d" % st.x["cur"])
        if all(k == v for k, v in ren.items()): return
        cache = {}
        def sub(v):
            t = type(v)
            if t is Rec:
                return Rec(sub(v.base), {k: sub(x) for k, x in v.d.items()})
            if t is tuple:
                if not refs(v): return v
                if v in cache: return cache[v]
                if v[0] == "H" and len(v) == 2 and type(v[1]) is str: w = ("H", ren.get(v[1], v[1]))
                elif v[0] == "ident": w = ren.get(v, v)
                else: w = tuple(sub(x) if type(x) in (tuple, Rec, frozenset) else x for x in v)
                cache[v] = w; return w
            if t is frozenset: return frozenset(sub(x) if type(x) in (tuple, Rec) else x for x in v)
            return v
        st.mem = {(("H", ren.get(r[1], r[1])) if r[0] == "H" else r): sub(v) for r, v in st.mem.items()}
        st.dom = {sub(t): d for t, d in st.dom.items()}
        st.truth = {sub(t): d for t, d in st.truth.items()}
        nx = {}
        for k, v in st.x.items():
            if type(k) is tuple and k[0] == "pins": v = sub(v)
            if type(k) is tuple and k[0] in ("lab", "used", "pins", "tlab"): k = (k[0], sub(k[1]) if type(k[1]) is tuple else ren.get(k[1], k[1]))
            nx[k] = v
        nx["cur"] = int(ren["tok%d" % st.x["cur"]][3:])
        st.x = nx
    cut_states = None
    def loop(self, n, states, o, cond, body, step, post_test=False):
        if self.cut_states is None: self.cut_states = {}
        l = n["l"]
        saved = self.cut_states.pop(l, None)
        Interp.loop(self, n, states, o, cond, body, step, post_test)
        extra = self.cut_states.pop(l, [])
        o["norm"] = self.dedupe(o["norm"] + extra)
        if saved is not None: self.cut_states[l] = saved
    def x_ret(self, n, states, o):
        if len(self.stack) == 1:
            for s in states:
                if n["e"] is None: o["ret"].append((s, ("val", UND))); continue
                for s2, v in self.eval(n["e"], s):
                    v = self.devalue(s2, v)
                    self.rets.append((s2.clone(), v, n)); o["ret"].append((s2, ("val", v)))
            return
        return Interp.x_ret(self, n, states, o)
    def opaque_call(self, e, st, n):
        self.unmod = getattr(self, "unmod", {}); self.unmod[n] = self.unmod.get(n, 0) + 1
        out = []
        for s, vs in self.evargs(e["a"], st): out.append((s, ANY))
        return out
    def unknown(self, e, st): return [(st, ANY)]
    def ctor(self, e, st): return [(st, ANY)]
    # ---- entry
    def start(self):
        st = State()
        st.mem[("G", self.gname["_ctx"])] = ("addr", ("H", "ctx"), ())
        st.mem[("G", self.gname["Code_Invalid"])] = INVALID
        st.mem[("H", "INVALID")] = Rec(C0, {self.TYPE: ("c", self.ct["CT_Invalid"])})
        st.x["cur"] = 1
        return st
    def arg_variants(self, st, p, spec):
        """[(state, value)] for one parameter"""
        ty = self.F.type(p["t"]); s = ty["s"].replace("gen::", "").replace("const ", "").strip()
        if s == "Token": return [(st, ("ident", "p:" + p["n"]))]
        if s == "Str": return [(st, ("fld", ("ident", "p:" + p["n"]), "Text"))]
        if s == "ModuleFlag": 
            a = st.clone(); b = st.clone(); b.x["export"] = 1
            return [(a, C0), (b, ("c", self.MFX))]
        if s.startswith("Code") and s != "CodeType":
            a = st.clone(); b = st.clone()
            kinds = KIND.get(s)
            v = self.newnode(b, "the incoming %s" % p["n"], [self.ct[t] for t in kinds] if kinds else None)
            return [(a, NULLCODE), (b, v)]
        if ty["k"] == "ptr": return [(st, ("addr", ("H", "anytok"), ()))]
        return [(st, ("param", p["n"]))]
    def analyse(self, f):
        """every argument present, and each one absent in turn"""
        vs = [len(self.arg_variants(self.start(), p, None)) for p in f["ps"]]
        plans = [[n - 1 for n in vs]] + [[0 if i == j else n - 1 for j, n in enumerate(vs)] for i, k in enumerate(vs) if k > 1]
        for plan in plans:
            st = self.start(); args = ()
            if self.target in self.first: st.dom[self.typeterm(1)] = Dom(min(self.first[self.target]), max(self.first[self.target]), frozenset(), frozenset(self.first[self.target]))
            for p, i in zip(f["ps"], plan):
                st, v = self.arg_variants(st, p, None)[i]
                if self.arg0 is not None and not args: v = self.arg0 if type(self.arg0) is tuple else ("c", self.arg0)
                args += (v,)
            self.invoke(f, st, args)
        return self.rets
    # ---- judgement of one successful return
    def root_of(self, v):
        """name of the node v points to"""
        if isinstance(v, Rec) and "ast" in v.d: v = v.d["ast"]
        return v[1][1] if is_addr(v) and v[1][0] == "H" else None
    def tags_of(self, st, n):
        """node kinds (values) the node may have at this point"""
        rec = st.mem.get(("H", n), self.gnode.get(n))
        if rec is None: return None
        t = self.project(rec, self.TYPE)
        if is_c(t): return {t[1]}
        if type(t) is tuple and t[0] == "kinds": return set(t[1])
        if t == ANY or t == UND: return None
        d = self.getdom(st, t)
        r = {v for v in self.ct.values() if d.has(v)}
        return r if len(r) < 20 else None
    def lost_at(self, s, v):
        """labels of the components that were parsed on the path and do not reach the returned node"""
        nm = self.nodes_in(v); live = self.closure(s, nm); lost = set(s.x.get("lost", ()))
        last = s.x.get("last", "")
        for r in s.mem:
            if r[0] == "H" and ("lab", r[1]) in s.x and r[1] not in live and ("used", r[1]) not in s.x: lost.add((s.x[("lab", r[1])], last))
        rr = set()
        for x in live: rr |= refs(s.mem.get(("H", x)))
        for k in s.x:
            if type(k) is tuple and k[0] == "tlab" and k[1] not in rr and ("used", k[1]) not in s.x and not self.vacuous(s, k[1]): lost.add((s.x[k], last))
            if type(k) is tuple and k[0] == "specarr": lost.add(("specifiers", last))
        if s.x.get("export") and not s.x.get("export_used") and not any(self.project(s.mem.get(("H", x), C0), self.MF) == ("c", self.MFX) for x in live): lost.add(("the export flag", last))
        return lost
GKIND = {"Code": None, "CodeParams": "CT_Parameters", "CodeTypename": "CT_Typename", "CodeAttributes": "CT_PlatformAttributes", "CodeSpecifiers": "CT_Specifiers", "CodePragma": "CT_Preprocess_Pragma"}
KIND = {"CodeAttributes": ["CT_PlatformAttributes"], "CodeSpecifiers": ["CT_Specifiers"], "CodeTypename": ["CT_Typename"]}
