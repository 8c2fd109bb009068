"""Operator mapping: parse_operator_after_ret_type is interpreted once per overloadable operator of the enumeration's text table, the text and the tokens
after `operator` held at that spelling's constants and everything else (arguments, parameters, specifiers, body) unconstrained.  On every path that
reaches def_operator the operator passed must be the enumerator the table spells that way - the unary one when there are no parameters - and
the parameter list must be read exactly after the last token of the spelling; at least one path must get there."""
import json, os, gx, pspec, parsei, absint
from absint import Rec, C0, C1, UND, is_c, is_addr
from parsei import ANY, NULLCODE
LEVEL = "exhaustive"
ORACLE = json.load(open(os.path.join(gx.VERIF, "lib", "oracle_text.json")))["EOperator"]
UNARY = {"Unary_Plus", "Unary_Minus", "Indirection", "AddressOf"}
FN = "parse_operator_after_ret_type"
TYPES = {"*": "Tok_Star", "*=": "Tok_Star", "&": "Tok_Ampersand", "&&": "Tok_Ampersand_DBL", "(": "Tok_Paren_Open", ")": "Tok_Paren_Close", ",": "Tok_Comma", "[": "Tok_BraceSquare_Open", "]": "Tok_BraceSquare_Close", "new": "Tok_Identifier", "delete": "Tok_Identifier"}
SPLIT = {"&=": ("&", "="), "<<=": ("<<", "="), ">>=": (">>", "="), "()": ("(", ")"), "new[]": ("new", "[]"), "delete[]": ("delete", "[]")}

class OpInterp(parsei.ParserInterp):
    def __init__(self, F, text, gap, parts, fail_eat=True):
        parsei.ParserInterp.__init__(self, F, pspec.SPEC, FN, fail_eat=fail_eat, names=False, max_iter=6); self.budget = 80_000_000
        self.buf = text + gap + "(T a)"
        self.stream = []; at = 0
        for p in parts: at = self.buf.index(p, at); self.stream.append((at, len(p), self.tk[TYPES.get(p, "Tok_Operator")])); at += len(p)
        self.stream.append((len(text + gap), 1, self.tk["Tok_Paren_Open"]))
        self.nops = len(parts); self.made = []; self.misplaced = []
        M = self.models
        M["lex__eat"] = OpInterp.m_eat; M["lex_current"] = OpInterp.m_cur
        M["def_operator"] = OpInterp.m_op
        M["operator_to_str"] = OpInterp.m_optext
        M["c_str_compare_len"] = OpInterp.m_cmp
        M["str_are_equal"] = OpInterp.m_eq
        base = M["parse_params"]
        M["parse_params"] = lambda ip, e, st: ip.m_params(e, st, base)
        ov = F.enumvals("Operator"); self.optext = {v: ORACLE[k[3:]] for k, v in ov.items() if k[3:] in ORACLE}
    def arith(self, st, op, a, b):
        if a == parsei.NTOK and op == "-": return ("c", 100)
        if is_addr(a) and a[1][0] == "S" and op in "+-" and is_c(b): return absint.Interp.arith(self, st, op, a, b)
        return parsei.ParserInterp.arith(self, st, op, a, b)
    def seed(self, s):
        """the current token is the next one of the spelling, if that is not used up"""
        i = s.x.get("opi"); r = self.tok(s.x["cur"])

        if i is not None and i < len(self.stream):
            s.mem[r] = self.token(i, r)
        else: s.mem.pop(r, None)
        return s
    def known(self, st): return st.x.get("opi") is not None and st.x["opi"] < len(self.stream)
    def m_cur(self, e, st):
        if self.known(st): return [(s, ("addr", self.tok(s.x["cur"]), ())) for s, vs in self.evargs(e["a"], st)]
        return parsei.ParserInterp.m_cur(self, e, st)
    def advance(self, st, ident=False):
        s = parsei.ParserInterp.advance(self, st, ident)
        if s.x.get("opi") is not None: s.x["opi"] += 1
        return self.seed(s)
    def m_eat(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            w = vs[1]
            if self.known(s):
                t = self.stream[s.x["opi"]][2]
                if is_c(w) and w[1] != t: s = s.clone(); s.x["failed"] = 1; out.append((s, C0))
                else: out.append((self.advance(s), C1))
                continue
            if is_c(w) and w[1] == self.tk["Tok_Decl_Operator"] and s.x.get("opi") is None:
                s = self.advance(s); s.x["opi"] = 0; out.append((self.seed(s), C1)); continue
            return parsei.ParserInterp.m_eat(self, e, st)
        return out
    def at_head(self, n, states, it): return self.dedupe(states)
    IDX0 = 50
    def deref(self, st, v, node, what="*"):
        if v == ("tokarr",): return [(st, (("P", ("tokarr",)), ()))]
        return parsei.ParserInterp.deref(self, st, v, node, what)
    def read(self, st, loc):
        if st.x.get("opi") is not None and not st.x.get("params"):
            if loc == (("H", "ctx"), ("parser", "Tokens", "Idx")): return ("c", self.IDX0 + st.x["opi"])
            if loc[0] == ("P", ("tokarr",)) and loc[1] and loc[1][0][0] == "i" and is_c(loc[1][0][1]):
                i = loc[1][0][1][1] - self.IDX0; v = None
                if i == -1: v = Rec(("mem", ("H", "anytok")), {"Type": ("c", self.tk["Tok_Decl_Operator"])})
                elif 0 <= i < len(self.stream): v = self.token(i, ("H", "anytok"))
                if v is not None:
                    for p in loc[1][1:]: v = self.project(v, p)
                    return v
        return parsei.ParserInterp.read(self, st, loc)
    def token(self, i, r):
        at, n, t = self.stream[i]
        return Rec(("mem", r), {"Type": ("c", t), "Text": Rec(("fld", ("mem", r), "Text"), {"Ptr": ("addr", ("S", self.buf), (("i", ("c", at)),)) , "Len": ("c", n)})})
    def chars(self, v):
        if is_addr(v) and v[1][0] == "S":
            i = v[2][0][1] if v[2] else C0
            return v[1][1][i[1]:] if is_c(i) else None
        if type(v) is tuple and v[:1] == ("str",): return v[1]
        return None
    def m_cmp(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            a, b = self.chars(vs[0]), self.chars(vs[1])
            if a is None or b is None or not is_c(vs[2]): out.append((s, ANY)); continue
            n = vs[2][1]; a = (a + "\0")[:n]; b = (b + "\0")[:n]
            out.append((s, ("c", (a > b) - (a < b))))
        return out
    def strtext(self, st, v):
        v = self.devalue(st, v)
        if not isinstance(v, Rec): return None
        p, n = self.chars(v.d.get("Ptr", UND)), v.d.get("Len", UND)
        return p[:n[1]] if p is not None and is_c(n) else None
    def m_eq(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            a, b = self.strtext(s, vs[0]), self.strtext(s, vs[1])
            out.append((s, ANY if a is None or b is None else ("c", int(a == b))))
        return out
    def m_optext(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            t = self.optext.get(vs[0][1]) if is_c(vs[0]) else None
            out.append((s, Rec(C0, {"Ptr": ("str", t), "Len": ("c", len(t))}) if t is not None else ANY))
        return out
    def m_params(self, e, st, base):
        out = []
        for s, v in base(self, e, st):
            if st.x.get("opi") != self.nops and not st.x.get("params"): self.misplaced.append((e["l"], st.x.get("opi")))
            s = s.clone(); s.x["params"] = 1; s.x["opi"] = len(self.stream); s.mem.pop(self.tok(s.x["cur"]), None); out.append((s, v))
        return out
    def m_op(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            vs = [self.devalue(s, v) for v in vs]
            p = self.project(vs[2], "params") if len(vs) > 2 and vs[2] != UND else NULLCODE
            pos = s.x.get("params")
            self.made.append((vs[0], "none" if p in (C0, NULLCODE, UND) else "some" if p != ANY else "?", pos, e["l"]))
            out.append((s, self.newnode(s, "the operator", [self.ct["CT_Operator"]])))
        return out

def one(job):
    cfg, text, gap, names, parts = job
    F = gx.extract(cfg); names = set(names)
    ip = OpInterp(F, text, gap, parts)
    for f in F.byname[FN]: ip.analyse(f)
    f = F.fn(FN); bad = {}; by = {v: k[3:] for k, v in F.enumvals("Operator").items() if k.startswith("Op_")}
    where = lambda l: F.at(l) if l else F.at(f)
    unary = names & UNARY; binary = names - UNARY
    got = set()
    for op, par, pos, l in ip.made:
        n = by.get(op[1]) if is_c(op) else None
        if par == "none" and unary: want = unary
        elif par == "some" and binary: want = binary
        else: want = names
        got.add((n, par))
        form = " without parameters" if par == "none" else " with parameters" if par == "some" else ""
        if n is None: bad.setdefault("unknown:" + par, (where(l), "`operator%s`%s: the operator passed to def_operator is not determined by the spelling (%s)" % (text, form, absint.short(op) if hasattr(absint, "short") else op)))
        elif n not in want: bad.setdefault(n + ":" + par, (where(l), "`operator%s`%s is recorded as Op_%s (spelled %s), expected Op_%s" % (text, form, n, ORACLE.get(n, "?"), " or Op_".join(sorted(want)))))
        if not pos: bad.setdefault("noparams", (where(l), "`operator%s` is recorded without its parameter list being read" % text))
    for l, i in ip.misplaced:
        bad.setdefault("tokens", (where(l), "`operator%s`: the parameter list is read after %s of the %d tokens of the operator" % (text, i, ip.nops)))
    for par in ("none", "some"):
        if not any(p in (par, "?") for n, p in got): bad.setdefault("unparsed", (F.at(f), "`operator%s` (parameters: %s) never reaches def_operator: the spelling cannot be parsed" % (text, par)))
    return text, gap, len(ip.made), bad, sorted(map(str, got))

def check(rep):
    cfg = "nofatal"; F = gx.extract(cfg)
    rep.assumptions += ["the lexer splits the operator spellings as tabled in the check (it reports &= <<= >>= () new[] delete[] as two tokens)"]
    by = {}
    for n, t in ORACLE.items():
        if "Op_" + n in F.enumvals("Operator") and n not in ("Invalid", "NumOps") and t != "INVALID": by.setdefault(t, []).append(n)
    jobs = [(cfg, t, gap, tuple(sorted(ns)), SPLIT.get(t, (t,))) for t, ns in sorted(by.items()) for gap in ("", " ", "\n")]
    for t in ("new", "delete"):       # operator new [ ]
        jobs.append((cfg, t + " [ ]", "", tuple(by.get(t + "[]", [])), (t, "[", "]")))
    for t, gap, n, bad, got in gx.pmap(one, jobs):
        rep.ok(max(n, 1)); rep.sample({"spelling": t + gap + "(", "def_operator calls": n, "recorded": got})
        for k, (where, d) in bad.items(): rep.bad("%s:%s" % (t, k), where, "operator recorded for its spelling", d)
    rep.need("operator spellings", len(by), 40)
