"""Abstract interpretation of text scanners: a pointer into the text and the count of remaining characters are followed relative to the position at the
last loop head, with a lower bound on how much is left.  The text is followed by one NUL, so a character that is not NUL is inside the text.
 ("scan", k)     position k, relative          REM, REM - k     characters left at / k after the relative origin
 ("chr", k)      the character at position k   ("len", e, n)    a length (n if known) whose text starts at ("tptr",) and ends at position e"""
import gx
from absint import Interp, Rec, State, C0, C1, UND, Dom, is_c, is_addr
REM = ("rem",); ANY = ("any",); TPTR = ("tptr",)
ERRN = 3; LOW = 0; SPACE = [9, 10, 11, 12, 13, 32]; NONZERO = Dom(ex=frozenset((0,))); NONSPACE = Dom(ex=frozenset([0] + SPACE))

def LEN(e, n=None): return ("len", e, n)
def small(n): return n if n is not None and 0 <= n <= 1 else None
def scan(v): return type(v) is tuple and v[:1] == ("scan",)
def remoff(v):
    """v = REM - j -> j, else None"""
    if v == REM: return 0
    if type(v) is tuple and v[:1] == ("op",) and v[1] == "+" and v[2] == REM and is_c(v[3]): return -v[3][1]
    return None

class LexInterp(Interp):
    def __init__(self, F, inline=lambda f: False, **kw):
        Interp.__init__(self, F, max_iter=60, **kw)
        self.inl = inline; self.sites = {}; self.stuck = {}; self.heads = {}; self.rets = []; self.budget = 60_000_000; self.memo = {}; self.chain = []
    # ---- obligations
    def fn(self): return self.F.byid[self.stack[-1]]["n"] if self.stack else "?"
    def oblige(self, st, kind, node, good, why):
        k = (">".join(self.F.byid[i]["n"] for i in self.stack[-2:]), kind, node["l"], tuple(self.chain[-1:]), id(node))
        o = self.sites.setdefault(k, [0, 0, None])
        o[0] += 1
        if not good: o[1] += 1; o[2] = o[2] or why
    def lo(self, st): return self.getdom(st, REM).lo
    def need(self, st, kind, node, k, why):
        """position k must not lie past the end; afterwards it is assumed"""
        good = self.lo(st) >= k
        self.oblige(st, kind, node, good, why)
        if good: return st
        s = self.refine(st, REM, ">=", k)
        return s
    # ---- values
    def default(self, st, root):
        return UND if root[0] in ("L", "T") else ANY
    def global_value(self, st, root): return ANY
    def project(self, v, p):
        if v == ANY or scan(v) or v == TPTR: return ANY
        return Interp.project(self, v, p)
    def arith(self, st, op, a, b):
        for x, y in ((a, b), (b, a)):
            if scan(x) and is_c(y) and (op == "+" or (op == "-" and x is a)): return ("scan", x[1] + (y[1] if op == "+" else -y[1]))
        if op == "+":
            for x, y in ((a, b), (b, a)):
                if type(x) is tuple and x[:1] == ("len",):
                    if y == TPTR: return ("scan", x[1])
                    if scan(y) and x[2] is not None: return ("scan", y[1] + x[2])
                    if is_c(y): return LEN(x[1] + y[1], None if x[2] is None else x[2] + y[1])
        if op == "-":
            if scan(a) and scan(b): return ("c", a[1] - b[1])
            if scan(a) and b == TPTR: return LEN(a[1])
            if type(a) is tuple and a[:1] == ("len",) and is_c(b): return LEN(a[1] - b[1], None if a[2] is None else a[2] - b[1])
        if a == ANY or b == ANY: return ANY
        if is_c(a) and is_c(b) or is_addr(a): return Interp.arith(self, st, op, a, b)
        if op in ("+", "-") and is_c(b) and remoff(a) is not None: return Interp.arith(self, st, op, a, b)
        if op == "+" and is_c(a) and remoff(b) is not None: return Interp.arith(self, st, op, b, a)
        return ANY
    def cmpterm(self, st, op, a, b):
        if ANY in (a, b): return ("anycmp",)
        a, b = [("c", x[2]) if type(x) is tuple and x[:1] == ("len",) and x[2] is not None else x for x in (a, b)]
        for x in (a, b):
            if type(x) is tuple and x[:1] == ("len",) or x == TPTR: return ("anycmp",)
        if scan(a) and scan(b): return Interp.cmpterm(self, st, op, ("c", a[1]), ("c", b[1]))
        if scan(a) or scan(b): return {"==": False, "!=": True}.get(op, ("anycmp",)) if C0 in (a, b) else ("anycmp",)
        return Interp.cmpterm(self, st, op, a, b)
    def negate(self, st, v):
        if v == ANY or v == ("anycmp",): return ANY
        return Interp.negate(self, st, v)
    def branch(self, st, v):
        if v == ANY or v == ("anycmp",): return [(st, True), (st.clone(), False)]
        if scan(v) or v == TPTR: return [(st, True)]
        return Interp.branch(self, st, v)
    nul = True
    def refine(self, st, t, op, c):
        if t in (ANY, UND): return st.clone()
        s = Interp.refine(self, st, t, op, c)
        if self.nul and s is not None and type(t) is tuple and t[:1] == ("chr",) and not self.getdom(s, t).has(0):
            s = Interp.refine(self, s, REM, ">", t[1])          # a character that is not the terminator is inside the text
        return s
    def refine_in(self, st, t, vals):
        s = Interp.refine_in(self, st, t, vals)
        if self.nul and s is not None and type(t) is tuple and t[:1] == ("chr",) and not self.getdom(s, t).has(0): s = Interp.refine(self, s, REM, ">", t[1])
        return s
    # ---- reading the text
    def deref(self, st, v, node, what="*"):
        if scan(v): return self.charat(st, v[1], node)
        if v == ANY or v == TPTR: return [(st, (("P", ANY), ()))]
        return Interp.deref(self, st, v, node, what)
    def charat(self, st, k, node):
        if k < 0:
            self.oblige(st, "read", node, st.x.get("back", 0) >= -k, "reads a character before the start of the text")
            return [(st, (("P", ANY), ()))]
        s = self.need(st, "read", node, k, "reads %s" % ("the character at the current position after the scanner passed the end" if k == 0 else "a character that can lie past the terminator"))
        return [(s, (("CHR", k), ()))] if s is not None else []
    def lval(self, e, st):
        if e["k"] == "idx":
            out = []; rest = False
            for s, b in self.eval(e["b"], st):
                b = self.devalue(s, b)
                if scan(b):
                    for s2, i in self.eval(e["i"], s):
                        if is_c(i): out += self.charat(s2, b[1] + i[1], e)
                        else: out.append((s2, (("P", ANY), ())))
                elif b == ANY or b == TPTR:
                    for s2, i in self.eval(e["i"], s): out.append((s2, (("P", ANY), ())))
                else: rest = True
            return Interp.lval(self, e, st) if rest else out
        return Interp.lval(self, e, st)
    def read(self, st, loc):
        if loc[0][0] == "CHR":
            k = loc[0][1]
            if self.nul and self.getdom(st, REM).hi == k: return C0
            return ("chr", k)
        if loc[0][0] in ("P", "G"): return ANY
        return Interp.read(self, st, loc)
    def write(self, st, loc, val, node=None):
        j = remoff(val)
        if j is not None and j > 0: self.oblige(st, "advance", node, self.lo(st) >= j, "advances past the end of the text")
        if j is not None and j > 0 and self.lo(st) < j:
            d = self.getdom(st, REM); st.dom[REM] = Dom(j, max(d.hi, j), frozenset(), None)
        if loc[0][0] in ("P", "G", "CHR"): return
        if scan(val):
            c = st.x.get("cur", 0)
            if val[1] > c: st.x["cur"] = val[1]
        Interp.write(self, st, loc, val, node)
    # ---- texts handed on
    def textend(self, st, v):
        """(known, end position) of a Str value"""
        if not isinstance(v, Rec): return None
        if "Text" in v.d: return self.textend(st, v.d["Text"])
        if "Ptr" in v.d and "Len" in v.d:
            p, n = v.d["Ptr"], v.d["Len"]
            if scan(p) and is_c(n): return p[1] + n[1]
            if scan(p) and remoff(n) is not None: return "rem" if p[1] <= remoff(n) else None
            if scan(p) and type(n) is tuple and n[:1] == ("len",): return "?" if n[2] is None else p[1] + n[2]
            if p == TPTR and type(n) is tuple and n[:1] == ("len",): return n[1]
            if scan(p) or p == TPTR: return "?"
        return None
    def handed(self, s, vs, e, n):
        for v in vs:
            t = self.textend(s, self.devalue(s, v))
            if t is None or t == "rem": continue
            good = t != "?" and self.lo(s) >= t
            self.oblige(s, "text", e, good, "hands a text to %s that can reach past the end" % n if t != "?" else "hands a text to %s whose extent is not known" % n)
    def call(self, e, st):
        n = e.get("n")
        if n in self.models or n is None or n.startswith("__builtin_") or n in ("__debugbreak", "process_exit", "exit", "abort"): return Interp.call(self, e, st)
        if e.get("op") and n.endswith("::operator=") and e.get("id") not in self.F.byid: return Interp.call(self, e, st)
        f = self.F.byid.get(e.get("id"))
        if f is not None and f.get("b") and self.inl(f) and len(self.stack) < self.inline_depth and self.stack.count(f["id"]) < 2:
            self.chain.append(e["l"])
            try: return self.inline(e, st, f)
            finally: self.chain.pop()
        return self.opaque_call(e, st, n)
    def opaque_call(self, e, st, n):
        out = []
        for s, vs in self.evargs(e["a"], st):
            self.handed(s, vs, e, n)
            s = s.clone()
            for v in vs:
                if is_addr(v) and v[1][0] in ("L", "T"): self.write(s, (v[1], v[2]), ANY, e)
            out.append((s, ANY))
        return out
    def unknown(self, e, st): return [(st, ANY)]
    def ctor(self, e, st):
        out = [(st, ANY)]
        if len(e.get("a", ())) == 1: out = [(s, self.devalue(s, v)) for s, v in self.eval(e["a"][0], st)]
        return out
    def coarse(self, s):
        """what is known about a character: its value, that it is not NUL, or nothing"""
        for t, d in list(s.dom.items()):
            if type(t) is tuple and t[:1] == ("chr",) and d.lo != d.hi:
                ex = frozenset(([] if d.has(0) else [0]) + ([] if any(d.has(c) for c in SPACE) else SPACE))
                if ex: s.dom[t] = Dom(ex=ex)
                else: del s.dom[t]
    def invoke(self, f, st, vs, this=None):
        k = (f["id"], tuple(self.chain), st.key(), vs, this)
        if k not in self.memo:
            out = Interp.invoke(self, f, st, vs, this)
            for s, v in out: self.coarse(s)
            self.memo[k] = [(s.clone(), v) for s, v in self.dedupe_vals(out)]
        return [(s.clone(), v) for s, v in self.memo[k]]
    def x_expr(self, n, states, o):
        Interp.x_expr(self, n, states, o)
        o["norm"] = self.dedupe(o["norm"])
    def x_blk(self, n, states, o):
        Interp.x_blk(self, n, states, o)
        ids = [("L", len(self.stack), v["id"]) for c in n["b"] if c["k"] == "decl" for v in c["v"]]
        if ids:
            for k in ("norm", "brk", "cont", "goto"):
                for s in o[k]:
                    s = s[0] if k == "goto" else s
                    for r in ids: s.mem.pop(r, None)
            o["norm"] = self.dedupe(o["norm"])
    # ---- loops
    def mapval(self, v, f):
        if isinstance(v, Rec):
            if "Ptr" in v.d and "Len" in v.d and v.d["Ptr"] not in (ANY, UND):
                t = self.textend(None, v)
                if t is not None: return self.maptext(v, t)
            d = {k: ANY if is_c(x) and k not in ("Ptr", "Len") else self.mapval(x, f) for k, x in v.d.items()}
            return Rec(self.mapval(v.base, f) if not isinstance(v.base, tuple) or v.base not in (C0, UND, ANY) else v.base, d)
        return f(v)
    def rebase(self, s):
        ks = []; js = []
        def coll(v):
            if isinstance(v, Rec):
                for x in v.d.values(): coll(x)
            elif scan(v): ks.append(v[1])
            elif remoff(v) is not None: js.append(remoff(v))
        for r, v in s.mem.items():
            if r[0] in ("L", "T"): coll(v)
        K = max(ks) if ks else 0
        step = not js or not ks or max(js) == K
        def maptext(v, t):
            d = dict(v.d)
            if t == "rem" and K == 0: return v
            if t in ("rem", "?"): d["Ptr"] = ANY; d["Len"] = d["Len"] if is_c(d["Len"]) and 0 <= d["Len"][1] <= 3 else ANY
            elif scan(v.d["Ptr"]) and v.d["Ptr"][1] == K: d["Ptr"] = ("scan", 0)
            else:
                n = v.d["Len"]; d["Ptr"] = TPTR; d["Len"] = LEN(min(max(t - K, LOW), ERRN), small(n[1] if is_c(n) else n[2]))
            return Rec(v.base, d)
        self.maptext = maptext
        def f(v):
            if scan(v): return ("scan", 0) if v[1] == K else TPTR
            j = remoff(v)
            if j is not None: return REM if j == K else ANY
            if is_c(v): return v if v[1] in (0, 1) else ANY
            if type(v) is tuple and v[:1] == ("chr",): return ("chr", v[1] - K) if v[1] >= K else ANY
            if type(v) is tuple and v[:1] == ("len",): return LEN(min(max(v[1] - K, LOW), ERRN), small(v[2]))
            if type(v) is tuple and v[:1] in (("cmp",), ("op",), ("str",)): return ANY
            return v
        for r in list(s.mem):
            if r[0] == "T": del s.mem[r]
            elif r[0] == "L" and not (type(s.mem[r]) is tuple and s.mem[r][:1] == ("ref",)): s.mem[r] = self.mapval(s.mem[r], f)
        dom = {}
        for t, d in s.dom.items():
            if t == REM: dom[t] = Dom(0, 0) if d.hi <= K else Dom(min(max(d.lo - K, 0), 2))
            elif type(t) is tuple and t[:1] == ("chr",) and t[1] - K in (0, 1): dom[("chr", t[1] - K)] = d
        s.dom = dom
        self.coarse(s)
        for t, d in list(s.dom.items()):
            if t != REM and d.lo == d.hi != 0: s.dom[t] = NONZERO if d.lo in SPACE else NONSPACE
        s.x["cur"] = 0; s.x["back"] = min(1, s.x.get("back", 0) + K)
        return K, step
    def at_head(self, n, states, it):
        k = ("prog", n["l"]); sk = ("snap", n["l"]); keep = []
        h = self.heads.setdefault((self.fn(), n["l"]), [0, 0]); h[0] += len(states)
        counted = n["k"] == "for" and n.get("s") is not None and n["s"]["k"] == "un" and n["s"]["e"]["k"] == "var"
        for s in states:
            s = s.clone()
            K, step = self.rebase(s)
            if K: h[1] += 1
            if it: self.oblige(s, "step", n, step, "the count of remaining characters and the scanner are no longer in step")
            if K:
                for q in [q for q in s.x if type(q) is tuple and q[0] == "prog"]: s.x[q] = 1
            prog = s.x.pop(k, 1); snap = s.x.pop(sk, None)
            cur = hash(s.key())
            if it > 0 and not prog and snap == cur and not counted:
                self.stuck.setdefault((self.fn(), n["l"]), "at the end of the text" if self.getdom(s, REM).hi == 0 else "while text is left"); continue
            s.x[k] = 0
            if it > 0 and not prog: s.x[sk] = cur
            keep.append(s)
        return self.dedupe(keep)
    def loop(self, n, states, o, cond, body, step, post_test=False):
        m = {k: len(o[k]) for k in o}
        Interp.loop(self, n, states, o, cond, body, step, post_test)
        for k in ("norm", "brk", "cont"):
            for s in o[k]: s.x.pop(("prog", n["l"]), None); s.x.pop(("snap", n["l"]), None)
    def on_cut(self, n, states): raise gx.AnalysisBroken("loop at %s does not converge" % self.F.at(n["l"]))
    def start(self, f):
        s = State(); s.dom[REM] = Dom(0)
        for p in f["ps"]:
            s.mem[("L", 1, p["id"])] = Rec(UND, {"Ptr": ("scan", 0), "Len": REM}) if self.F.type(p["t"])["c"].split("::")[-1] == "Str" else ANY
        return s
    def analyse(self, f):
        self.stack.append(f["id"])
        try: norm, rets = self.run_fn(f, self.start(f), False)
        finally: self.stack.pop()
        self.rets += rets
