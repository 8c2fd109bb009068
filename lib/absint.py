"""Path-partitioned abstract interpreter over the extracted program.

Values are constants, addresses, uninterpreted terms and records of those; a state carries, per uninterpreted term,
a finite abstraction (excluded / allowed constants and an interval) plus the truth of opaque conditions already decided on
the path.  No constraint solver is involved: a branch on a term that the abstraction does not decide takes both sides.
Calls are followed into their bodies (so an extracted helper changes nothing) unless a client models them.
"""
import sys
from gx import AnalysisBroken
sys.setrecursionlimit(20000)

INF = 1 << 70
C0 = ("c", 0); C1 = ("c", 1); UND = ("und",)

class Rec:
    """immutable record: `base` supplies fields not in d"""
    __slots__ = ("base", "d", "_h", "_r")
    def __init__(self, base, d): self.base = base; self.d = d; self._h = None; self._r = None
    def __hash__(self):
        if self._h is None: self._h = hash((self.base, frozenset(self.d.items())))
        return self._h
    def __eq__(self, o): return self is o or isinstance(o, Rec) and hash(self) == hash(o) and self.base == o.base and self.d == o.d
    def __ne__(self, o): return not self == o
    def __repr__(self): return "Rec(%r,%r)" % (self.base, self.d)

class Dom:
    __slots__ = ("lo", "hi", "ex", "inn")
    def __init__(self, lo=-INF, hi=INF, ex=frozenset(), inn=None): self.lo = lo; self.hi = hi; self.ex = ex; self.inn = inn
    def key(self): return (self.lo, self.hi, self.ex, self.inn)
    def __eq__(self, o): return self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def has(self, v):
        return self.lo <= v <= self.hi and v not in self.ex and (self.inn is None or v in self.inn)
    def empty(self):
        if self.lo > self.hi: return True
        if self.inn is not None: return not any(self.has(v) for v in self.inn)
        if self.lo == self.hi: return self.lo in self.ex
        if self.hi - self.lo < 64: return all(v in self.ex for v in range(self.lo, self.hi + 1))
        return False
    def only(self):
        if self.inn is not None:
            s = [v for v in self.inn if self.has(v)]
            return s[0] if len(s) == 1 else None
        if self.lo == self.hi: return self.lo
        return None
    def __repr__(self): return "Dom[%s..%s !%s in%s]" % (self.lo, self.hi, sorted(self.ex), self.inn)
TOP = Dom()

class State:
    __slots__ = ("mem", "dom", "truth", "trace", "n", "x")
    def __init__(self):
        self.mem = {}; self.dom = {}; self.truth = {}; self.trace = (); self.n = 0; self.x = {}
    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.dom = dict(self.dom); s.truth = dict(self.truth); s.trace = self.trace; s.n = self.n; s.x = dict(self.x)
        return s
    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.dom.items()), frozenset(self.truth.items()), self.trace, frozenset(self.x.items()))
    def emit(self, *ev): self.trace = self.trace + (ev,)
    def fresh(self, tag):
        self.n += 1
        return (tag, self.n)

def is_c(v): return type(v) is tuple and v[0] == "c"
def is_addr(v): return type(v) is tuple and v[0] == "addr"

CMP = {"==", "!=", "<", ">", "<=", ">="}
NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}

class TooMany(AnalysisBroken): pass

class Interp:
    def __init__(self, facts, models=None, max_iter=3, max_states=60000, inline_depth=14):
        self.F = facts; self.models = dict(models or {}); self.max_iter = max_iter
        self.max_states = max_states; self.inline_depth = inline_depth
        self.opaque = set(); self.visited_fns = set(); self.cut_loops = set(); self.stack = []
        self.ncalls = 0; self.aborts = []; self.budget = 20_000_000; self.steps = 0
        self.canon_cache = {}
        self.glob_eval = set()
        self.assume_nonnull = True
        self.initial_globals = False     # True: statics hold their initialisers at entry (first-call semantics)

    # ---------- hooks for clients
    rec_depth = 2
    def on_null(self, st, node, val, what): pass        # definite null dereference
    def on_maybe_null(self, st, node, val, what):       # undecided pointer: default = trust
        return [st]
    def on_write(self, st, loc, val, node): pass
    def on_read_undef(self, st, loc, node): pass
    def on_abort(self, st, node, why): self.aborts.append((st, node, why))
    def on_opaque(self, st, node, name, args): return None
    def on_index(self, st, loc, idx, node): pass

    # ---------- memory
    def canon(self, rec, name):
        k = (rec, name)
        if k in self.canon_cache: return self.canon_cache[k]
        r = name
        if rec and "::(anonymous" in rec: rec = rec.split("::(anonymous")[0]
        if rec and (rec == "AST" or rec.startswith("AST_")) and rec in self.F.records:
            for f in self.F.records[rec]["f"]:
                if f["n"] == name:
                    r = "@%d:%d" % (f["off"], f["size"])
        self.canon_cache[k] = r
        return r
    def default(self, st, root):
        k = root[0]
        if k == "G": return self.global_value(st, root)
        if k == "P": return ("mem", root[1])
        if k in ("L", "T"): return UND
        if k == "S": return ("strmem", root[1])
        return ("mem", root)
    def global_value(self, st, root):
        g = self.F.gid.get(root[1])
        if g is not None and "i" in g and root not in self.glob_eval:
            t = self.F.type(g["t"])
            import gx
            if "const" in t["s"] or "const" in t["c"] or g.get("constexpr") or self.initial_globals or root[1] not in gx.written_globals(self.F):
                self.glob_eval.add(root)
                try:
                    r = self.eval_init(g["i"], State(), g["t"])
                finally:
                    self.glob_eval.discard(root)
                if len(r) == 1: return r[0][1]
        if g is not None and self.initial_globals and "i" not in g: return C0
        return ("glob", g["n"] if g else root[1])
    def project(self, v, p):
        if isinstance(v, Rec):
            if p in v.d: return v.d[p]
            return self.project(v.base, p)
        if v == UND: return UND
        if v == C0: return C0
        if v[0] == "str" and type(p) is tuple and is_c(p[1]): v = ("strmem", v[1])
        if v[0] == "strmem" and type(p) is tuple and is_c(p[1]):
            i = p[1][1]; s = v[1]
            return ("c", ord(s[i])) if 0 <= i < len(s) else (C0 if i == len(s) else ("oob", i))
        return ("fld", v, p)
    def root_value(self, st, root):
        if root in st.mem: return st.mem[root]
        v = self.default(st, root)
        return v
    def read(self, st, loc):
        v = self.root_value(st, loc[0])
        for p in loc[1]: v = self.project(v, p)
        return v
    def setpath(self, v, path, val):
        if not path: return val
        d = dict(v.d) if isinstance(v, Rec) else {}
        base = v.base if isinstance(v, Rec) else v
        d[path[0]] = self.setpath(self.project(v, path[0]), path[1:], val)
        return Rec(base, d)
    def write(self, st, loc, val, node=None):
        self.on_write(st, loc, val, node)
        root, path = loc
        if not path: st.mem[root] = val
        else: st.mem[root] = self.setpath(self.root_value(st, root), path, val)

    # ---------- numeric abstraction
    def getdom(self, st, t):
        d = st.dom.get(t)
        if d is not None: return d
        if type(t) is tuple and t[0] == "op" and t[1] == "+" and is_c(t[3]):
            b = self.getdom(st, t[2]); k = t[3][1]
            if b is not TOP: return Dom(b.lo + k if b.lo > -INF else -INF, b.hi + k if b.hi < INF else INF, frozenset(e + k for e in b.ex), None if b.inn is None else frozenset(e + k for e in b.inn))
        return TOP
    def nonneg(self, t):
        return False
    def refine(self, st, t, op, c):
        """returns state with t op c assumed, or None"""
        if type(t) is tuple and t[0] == "op" and t[1] == "+" and is_c(t[3]):
            return self.refine(st, t[2], op, c - t[3][1])
        d = st.dom.get(t, TOP)
        lo, hi, ex, inn = d.lo, d.hi, d.ex, d.inn
        if op == "==":
            if not d.has(c): return None
            nd = Dom(c, c, frozenset(), None)
        elif op == "!=":
            if not d.has(c): return st
            nd = Dom(lo, hi, ex | {c}, inn)
            while nd.lo in nd.ex: nd.lo += 1
            while nd.hi in nd.ex: nd.hi -= 1
        elif op == "<":  nd = Dom(lo, min(hi, c - 1), ex, inn)
        elif op == "<=": nd = Dom(lo, min(hi, c), ex, inn)
        elif op == ">":  nd = Dom(max(lo, c + 1), hi, ex, inn)
        else:            nd = Dom(max(lo, c), hi, ex, inn)
        if nd.empty(): return None
        if nd == d: return st
        s = st.clone(); s.dom[t] = nd
        return s
    def refine_in(self, st, t, vals):
        d = st.dom.get(t, TOP)
        keep = frozenset(v for v in vals if d.has(v))
        if not keep: return None
        s = st.clone(); s.dom[t] = Dom(min(keep), max(keep), frozenset(), keep)
        return s

    def cmpterm(self, st, op, a, b):
        """-> True/False/('cmp',op,a,b)"""
        if isinstance(a, Rec) or isinstance(b, Rec):
            return ("cmp", op, a, b)
        if is_c(a) and is_c(b):
            x, y = a[1], b[1]
            return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        if is_c(a): a, b, op = b, a, SWAP[op]
        if is_addr(a) or is_addr(b):
            if is_c(b) and b[1] == 0 and is_addr(a):
                return {"==": False, "!=": True}.get(op, ("cmp", op, a, b))
            if is_addr(a) and is_addr(b):
                if a == b: return op in ("==", "<=", ">=")
                if a[1] == b[1] and len(a[2]) == len(b[2]) and a[2][:-1] == b[2][:-1] and type(a[2][-1]) is tuple and type(b[2][-1]) is tuple and is_c(a[2][-1][1]) and is_c(b[2][-1][1]):
                    return self.cmpterm(st, op, a[2][-1][1], b[2][-1][1])
                if a[1] != b[1] and op in ("==", "!=") and a[1][0] != "P" and b[1][0] != "P": return op == "!="
            if op in ("==", "!="):
                o = b if is_addr(a) else a; ad = a if is_addr(a) else b
                if not is_addr(o) and ad[1][0] in ("O", "L", "T") and self.cannot_alias(st, o, ad): return op == "!="
            return ("cmp", op, a, b)
        if a == b and a != UND:
            return op in ("==", "<=", ">=")
        if type(a) is tuple and a[0] == "str" and is_c(b) and b[1] == 0: return op == "!="
        if a == UND or b == UND: return ("cmp", op, a, b)
        if is_c(b):
            if type(a) is tuple and a[0] == "cmp" :
                # boolean term compared to 0/1
                if (op, b[1]) in (("!=", 0), ("==", 1)): return a
                if (op, b[1]) in (("==", 0), ("!=", 1)): return self.cmpterm(st, NEG[a[1]], a[2], a[3])
            d = self.getdom(st, a); c = b[1]
            if op == "==":
                if not d.has(c): return False
                if d.only() == c: return True
            elif op == "!=":
                if not d.has(c): return True
                if d.only() == c: return False
            elif op == "<":
                if d.hi < c: return True
                if d.lo >= c: return False
            elif op == "<=":
                if d.hi <= c: return True
                if d.lo > c: return False
            elif op == ">":
                if d.lo > c: return True
                if d.hi <= c: return False
            elif op == ">=":
                if d.lo >= c: return True
                if d.hi < c: return False
            return ("cmp", op, a, b)
        # both terms: normalise
        if op in (">", ">="): a, b, op = b, a, SWAP[op]
        if op in ("==", "!=") and repr(a) > repr(b): a, b = b, a
        return ("cmp", op, a, b)
    def cannot_alias(self, st, term, addr): return True   # a fresh object / local never equals an input pointer

    def branch(self, st, v):
        """-> [(state,bool)]"""
        if v is True or v is False: return [(st, v)]
        if isinstance(v, Rec): return [(st, True)]
        if is_c(v): return [(st, v[1] != 0)]
        if is_addr(v) or v[0] in ("str", "fn"): return [(st, True)]
        if v[0] == "und": return [(st, True), (st.clone(), False)]
        if v[0] == "not": return [(s, not b) for s, b in self.branch(st, v[1])]
        if v[0] != "cmp":
            t = self.cmpterm(st, "!=", v, C0)
            if t is True or t is False: return [(st, t)]
            v = t
            if v[0] != "cmp": return self.branch(st, v)
        _, op, a, b = v
        r = self.cmpterm(st, op, a, b)
        if r is True or r is False: return [(st, r)]
        if r != v: return self.branch(st, r)
        if not isinstance(a, Rec) and not isinstance(b, Rec) and is_c(b) and not is_addr(a):
            out = []
            s = self.refine(st, a, op, b[1])
            if s is not None: out.append((s if s is not st else st.clone(), True))
            s = self.refine(st, a, NEG[op], b[1])
            if s is not None: out.append((s if s is not st else st.clone(), False))
            return out
        k = ("cmp", op, a, b); neg = ("cmp", NEG[op], a, b)
        for kk, val in ((k, True), (neg, False)):
            if kk in st.truth: return [(st, st.truth[kk] == val)]
        # derived order facts
        imp = self.order_implied(st, op, a, b)
        if imp is not None: return [(st, imp)]
        s1 = st.clone(); s1.truth[k] = True
        s2 = st.clone(); s2.truth[k] = False
        self.note_truth(s1, k, True); self.note_truth(s2, k, False)
        return [(s1, True), (s2, False)]
    def note_truth(self, st, k, b): pass
    def order_implied(self, st, op, a, b):
        """a few sound consequences of recorded order facts between the same two terms"""
        known = set()
        for (o, x, y) in (("<", a, b), ("<=", a, b), ("<", b, a), ("<=", b, a), ("==", a, b), ("==", b, a), ("!=", a, b), ("!=", b, a)):
            t = st.truth.get(("cmp", o, x, y))
            if t is None: continue
            rel = o if t else NEG[o]
            if x is b or (x == b and y == a and a != b): rel = SWAP[rel]
            known.add(rel)
        imp = {"<": {"<", "<=", "!="}, "<=": {"<="}, ">": {">", ">=", "!="}, ">=": {">="}, "==": {"==", "<=", ">="}, "!=": {"!="}}
        pos = set()
        for r in known: pos |= imp[r]
        if "<=" in pos and ">=" in pos: pos |= {"=="}
        if "<=" in pos and "!=" in pos: pos |= {"<"}
        if ">=" in pos and "!=" in pos: pos |= {">"}
        if op in pos: return True
        if NEG[op] in pos: return False
        return None

    # ---------- arithmetic
    def arith(self, st, op, a, b):
        if isinstance(a, Rec) or isinstance(b, Rec): return ("op", op, a, b)
        if is_c(a) and is_c(b):
            x, y = a[1], b[1]
            try:
                if op == "+": return ("c", x + y)
                if op == "-": return ("c", x - y)
                if op == "*": return ("c", x * y)
                if op == "/": return ("c", int(x / y) if abs(x) < 1 << 50 else x // y)
                if op == "%": return ("c", x - y * int(x / y) if abs(x) < 1 << 50 else x % y)
                if op == "&": return ("c", x & y)
                if op == "|": return ("c", x | y)
                if op == "^": return ("c", x ^ y)
                if op == "<<": return ("c", x << y)
                if op == ">>": return ("c", x >> y)
            except Exception: return ("op", op, a, b)
        if a == UND or b == UND: return UND
        if op in ("+", "-") and is_addr(b) and is_c(a) and op == "+": a, b = b, a
        if is_addr(a) and op in ("+", "-") and not is_addr(b):
            path = a[2]
            d = b if op == "+" else (("c", -b[1]) if is_c(b) else ("op", "-", C0, b))
            if path and type(path[-1]) is tuple and path[-1][0] == "i":
                return ("addr", a[1], path[:-1] + (("i", self.arith(st, "+", path[-1][1], d)),))
            return ("addr", a[1], path + (("i", d),)) if d != C0 else a
        if is_addr(a) and is_addr(b) and op == "-" and a[1] == b[1]:
            def ix(x): return x[2][-1][1] if x[2] and type(x[2][-1]) is tuple and x[2][-1][0] == "i" else C0
            return self.arith(st, "-", ix(a), ix(b))
        if op == "-" and is_c(b): op, b = "+", ("c", -b[1])
        if op == "+" and is_c(a): a, b = b, a
        if op == "+" and is_c(b):
            if b[1] == 0: return a
            if type(a) is tuple and a[0] == "op" and a[1] == "+" and is_c(a[3]): return self.arith(st, "+", a[2], ("c", a[3][1] + b[1]))
        if op == "*" and (a == C0 or b == C0): return C0
        if op == "*" and a == C1: return b
        if op == "*" and b == C1: return a
        if op == "-" and a == b: return C0
        return ("op", op, a, b)

    # ---------- lvalues
    def deref(self, st, v, node, what="*"):
        """-> [(st, loc)]"""
        if is_addr(v): return [(st, (v[1], v[2]))]
        if v == C0:
            self.on_null(st, node, v, what); return []
        if v == UND:
            self.on_read_undef(st, None, node); return [(st, (("P", ("undptr", id(node))), ()))]
        if isinstance(v, Rec): return [(st, (("P", v), ()))]
        if v[0] == "str": return [(st, (("S", v[1]), (("i", C0),)))]
        d = self.getdom(st, v)
        if d.only() == 0:
            self.on_null(st, node, v, what); return []
        if d.has(0):
            return [(s, (("P", v), ())) for s in self.on_maybe_null(st, node, v, what)]
        return [(st, (("P", v), ()))]

    def varloc(self, st, e):
        s = e["s"]
        if s == "g" or s == "s":
            return (("G", e["id"]), ())
        root = ("L", len(self.stack), e["id"])
        v = st.mem.get(root)
        if type(v) is tuple and v and v[0] == "ref": return (v[1], v[2])
        return (root, ())

    def lval(self, e, st):
        k = e["k"]
        if k == "var": return [(st, self.varloc(st, e))]
        if k == "mem":
            key = self.canon(e.get("r"), e["n"])
            out = []
            if e["a"]:
                for s, v in self.eval(e["b"], st):
                    for s2, loc in self.deref(s, v, e, e["n"]): out.append((s2, (loc[0], loc[1] + (key,))))
            else:
                for s, loc in self.lval(e["b"], st): out.append((s, (loc[0], loc[1] + (key,))))
            return out
        if k == "deref":
            out = []
            for s, v in self.eval(e["e"], st): out += self.deref(s, v, e)
            return out
        if k == "idx":
            out = []
            for s, b in self.eval(e["b"], st):
                for s2, i in self.eval(e["i"], s):
                    p = self.arith(s2, "+", b, i)
                    for s3, loc in self.deref(s2, p if is_addr(p) else b, e, "[]"):
                        if not is_addr(p):
                            if type(b) is tuple and b[0] == "str": loc = (("S", b[1]), (("i", i),))
                            else: loc = (loc[0], loc[1] + (("i", i),))
                        self.on_index(s3, loc, i, e)
                        out.append((s3, loc))
            return out
        if k in ("cast", "icast"): return self.lval(e["e"], st)
        if k == "cond":
            out = []
            for s, b in self.cond(e["c"], st): out += self.lval(e["x"] if b else e["y"], s)
            return out
        if k == "un" and e["o"] in ("++", "--") and not e.get("post"):
            out = []
            for s, loc in self.lval(e["e"], st):
                v = self.read(s, loc); self.write(s, loc, self.arith(s, "+" if e["o"] == "++" else "-", v, C1), e); out.append((s, loc))
            return out
        if k == "asg":
            out = []
            for s, loc, v in self.assign(e, st): out.append((s, loc))
            return out
        if k == "this":
            return [(st, (("L", len(self.stack), "this"), ()))]
        # calls returning references / temporaries
        out = []
        for s, v in self.eval(e, st):
            if type(v) is tuple and v and v[0] == "refval": out.append((s, (v[1], v[2]))); continue
            root = ("T", len(self.stack), id(e))
            s.mem[root] = v
            out.append((s, (root, ())))
        return out

    def assign(self, e, st):
        op = e["o"]
        out = []
        if op == "=":
            for s, v in self.eval(e["y"], st):
                for s2, loc in self.lval(e["x"], s):
                    self.write(s2, loc, v, e); out.append((s2, loc, v))
        else:
            for s, v in self.eval(e["y"], st):
                for s2, loc in self.lval(e["x"], s):
                    nv = self.arith(s2, op[:-1], self.read(s2, loc), v)
                    self.write(s2, loc, nv, e); out.append((s2, loc, nv))
        return out

    def tkind(self, e): return self.F.type(e.get("t", -1))["k"]

    # ---------- expressions
    def eval(self, e, st):
        self.steps += 1
        if self.steps > self.budget: raise TooMany("interpretation budget exceeded in %s" % (self.stack[:1],))
        if "cv" in e: return [(st, ("c", e["cv"]))]
        k = e["k"]
        if k == "null": return [(st, C0)]
        if k == "str": return [(st, ("str", e["v"]))]
        if k in ("var", "mem", "deref", "idx"):
            out = []
            for s, loc in self.lval(e, st):
                if self.tkind(e) == "arr":
                    out.append((s, ("addr", loc[0], loc[1] + (("i", C0),)))); continue
                v = self.read(s, loc)
                if v == UND: self.on_read_undef(s, loc, e)
                out.append((s, v))
            return out
        if k == "this": return [(st, st.mem[("L", len(self.stack), "this")])]
        if k in ("cast", "icast"):
            r = self.eval(e["e"], st)
            tk = self.tkind(e)
            if tk == "bool" :
                return [(s, self.tobool(s, self.devalue(s, v))) for s, v in r]
            if e.get("ck") == "ToVoid": return r
            return [(s, self.conv(s, v, e)) for s, v in r]
        if k == "addr":
            if e["e"]["k"] == "fn": return [(st, ("fn", e["e"]["n"]))]
            return [(s, ("addr", l[0], l[1])) for s, l in self.lval(e["e"], st)]
        if k == "fn": return [(st, ("fn", e["n"]))]
        if k == "call": return self.call(e, st)
        if k == "un": return self.unary(e, st)
        if k == "bin": return self.binary(e, st)
        if k == "asg": return [(s, v) for s, l, v in self.assign(e, st)]
        if k == "cond":
            out = []
            for s, b in self.cond(e["c"], st): out += self.eval(e["x"] if b else e["y"], s)
            return out
        if k == "init": return self.eval_init(e, st, e.get("t", -1))
        if k == "zero": return [(st, C0)]
        if k == "ctor":
            if not e["a"]:
                return [(st, C0 if (e.get("zero")) else (UND if e.get("def") and e.get("triv") else C0))]
            return self.ctor(e, st)
        if k == "sizeof":
            return [(st, ("c", self.F.type(e["ty"]).get("size", 0)))]
        if k == "vaarg": return self.vaarg(e, st)
        if k == "lambda": return [(st, ("lambda", id(e)))]
        if k == "stmtexpr": return [(s, UND) for s in self.run_normal(e["body"], st)]
        if k == "float": return [(st, ("float", e["v"]))]
        if k == "offsetof": return [(st, ("offsetof", id(e)))]
        return self.unknown(e, st)

    def conv(self, st, v, e): return v
    def tobool(self, st, v):
        if isinstance(v, Rec): return C1
        if is_c(v): return C1 if v[1] else C0
        if type(v) is tuple and v[0] in ("cmp", "not"): return v
        r = self.cmpterm(st, "!=", v, C0)
        return C1 if r is True else C0 if r is False else r
    def unknown(self, e, st): return [(st, st.fresh("unk:" + e["k"]))]
    def vaarg(self, e, st):
        return [(st, st.fresh("va"))]
    def ctor(self, e, st):
        return [(st, st.fresh("ctor:" + e["n"]))]

    def eval_init(self, e, st, t):
        if e["k"] != "init": return self.eval(e, st)
        if not e["a"]: return [(st, C0)]
        if "fn" in e:
            res = [(st, {})]
            for name, sub in zip(e["fn"], e["a"]):
                nres = []
                key = self.canon(e.get("r"), name)
                for s, d in res:
                    for s2, v in self.eval_init(sub, s, sub.get("t", -1)):
                        d2 = dict(d); d2[key] = v; nres.append((s2, d2))
                res = nres
            return [(s, Rec(C0, d)) for s, d in res]
        ty = self.F.type(t)
        if ty["k"] != "arr" and len(e["a"]) == 1: return self.eval_init(e["a"][0], st, e["a"][0].get("t", -1))
        res = [(st, {})]
        for i, sub in enumerate(e["a"]):
            nres = []
            for s, d in res:
                for s2, v in self.eval_init(sub, s, sub.get("t", -1)):
                    d2 = dict(d); d2[("i", ("c", i))] = v; nres.append((s2, d2))
            res = nres
        return [(s, Rec(C0, d)) for s, d in res]

    def unary(self, e, st):
        o = e["o"]
        if o == "!":
            return [(s, self.negate(s, self.devalue(s, v))) for s, v in self.eval(e["e"], st)]
        if o in ("++", "--"):
            out = []
            for s, loc in self.lval(e["e"], st):
                v = self.read(s, loc); nv = self.arith(s, "+" if o == "++" else "-", v, C1)
                self.write(s, loc, nv, e)
                out.append((s, v if e.get("post") else nv))
            return out
        if o == "-": return [(s, self.arith(s, "-", C0, v)) for s, v in self.eval(e["e"], st)]
        if o == "+": return self.eval(e["e"], st)
        if o == "~": return [(s, ("c", ~v[1]) if is_c(v) else ("op", "~", v, C0)) for s, v in self.eval(e["e"], st)]
        return self.unknown(e, st)
    def negate(self, st, v):
        if isinstance(v, Rec): return C0
        if type(v) is tuple and v[0] == "cmp":
            return ("cmp", NEG[v[1]], v[2], v[3])
        r = self.cmpterm(st, "==", v, C0)
        return C1 if r is True else C0 if r is False else r
    def binary(self, e, st):
        o = e["o"]
        if o in ("&&", "||"):
            return [(s, C1 if b else C0) for s, b in self.cond(e, st)]
        if o == ",":
            out = []
            for s, _ in self.eval(e["x"], st): out += self.eval(e["y"], s)
            return out
        out = []
        for s, a in self.eval(e["x"], st):
            a = self.devalue(s, a)
            for s2, b in self.eval(e["y"], s):
                b = self.devalue(s2, b)
                if o in CMP:
                    r = self.cmpterm(s2, o, a, b)
                    out.append((s2, C1 if r is True else C0 if r is False else r))
                else: out.append((s2, self.arith(s2, o, a, b)))
        return out

    def cond(self, e, st):
        k = e["k"]
        if "cv" in e: return [(st, e["cv"] != 0)]
        if k == "bin" and e["o"] in ("&&", "||"):
            out = []
            for s, b in self.cond(e["x"], st):
                if e["o"] == "&&":
                    out += self.cond(e["y"], s) if b else [(s, False)]
                else:
                    out += [(s, True)] if b else self.cond(e["y"], s)
            return out
        if k == "un" and e["o"] == "!": return [(s, not b) for s, b in self.cond(e["e"], st)]
        if k in ("cast", "icast") and self.tkind(e) in ("bool",): return self.cond(e["e"], st)
        out = []
        for s, v in self.eval(e, st): out += self.branch(s, self.devalue(s, v))
        return out

    # ---------- calls
    def evargs(self, args, st):
        res = [(st, ())]
        for a in args:
            nres = []
            for s, vs in res:
                for s2, v in self.eval(a, s): nres.append((s2, vs + (v,)))
            res = nres
        return res

    def call(self, e, st):
        self.ncalls += 1
        n = e.get("n")
        if n in self.models:
            r = self.models[n](self, e, st)
            if r is not None: return r
        if n is None:
            out = []
            for s, f in self.eval(e["cx"], st):
                if type(f) is tuple and f[0] == "fn" and f[1] in self.F.byname:
                    e2 = dict(e); e2["n"] = f[1]; e2["id"] = self.F.byname[f[1]][0]["id"]
                    out += self.call(e2, s)
                else: out += self.opaque_call(e, s, "<indirect>")
            return out
        if n.startswith("__builtin_") or n in ("__debugbreak",):
            b = n[10:]
            if b in ("trap", "unreachable") or n == "__debugbreak":
                self.on_abort(st, e, "trap"); return []
            if b in ("va_start", "va_end", "va_copy"): return self.va(b, e, st)
            if b == "expect": return self.eval(e["a"][0], st)
            return self.opaque_call(e, st, n)
        if e.get("op") and n.endswith("::operator=") and (e.get("id") not in self.F.byid):
            out = []
            for s, v in self.eval(e["a"][1], st):
                for s2, loc in self.lval(e["a"][0], s):
                    self.write(s2, loc, v, e); out.append((s2, ("refval", loc[0], loc[1])))
            return [(s, self.read(s, (v[1], v[2]))) if False else (s, v) for s, v in out]
        if n in ("process_exit", "exit", "abort"):
            self.on_abort(st, e, n); return []
        f = self.F.byid.get(e.get("id"))
        if f is None and n in self.F.byname and len(self.F.byname[n]) == 1: f = self.F.byname[n][0]
        if f is None or n in self.opaque or len(self.stack) >= self.inline_depth or self.stack.count(f["id"]) >= self.rec_depth:
            return self.opaque_call(e, st, n)
        return self.inline(e, st, f)

    def va(self, b, e, st): return [(st, C0)]

    def opaque_call(self, e, st, n):
        out = []
        args = e["a"]
        for s, vs in self.evargs(args, st):
            r = self.on_opaque(s, e, n, vs)
            if r is not None: out += r; continue
            s = s.clone()
            for v in vs:
                if is_addr(v) and v[1][0] in ("L", "T"):
                    self.write(s, (v[1], v[2]), s.fresh("havoc:" + n), e)
            out.append((s, s.fresh("ret:" + n)))
        return out

    def bind(self, e, st, f):
        """evaluate arguments -> [(st, this_value, {param: value})]"""
        args = list(e["a"]); this = None
        res = [(st, None, ())]
        if e.get("meth") and not f.get("smeth"):
            obj = args.pop(0)
            res = []
            if e.get("arrow"):
                for s, v in self.eval(obj, st): res.append((s, v, ()))
            else:
                for s, loc in self.lval(obj, st): res.append((s, ("addr", loc[0], loc[1]), ()))
        for i, a in enumerate(args):
            p = f["ps"][i] if i < len(f["ps"]) else None
            isref = p is not None and self.F.type(p["t"]).get("ref")
            nres = []
            for s, th, vs in res:
                if isref:
                    for s2, loc in self.lval(a, s): nres.append((s2, th, vs + (("ref", loc[0], loc[1]),)))
                else:
                    for s2, v in self.eval(a, s): nres.append((s2, th, vs + (self.devalue(s2, v),)))
            res = nres
        return res
    def devalue(self, st, v):
        if type(v) is tuple and v and v[0] == "refval": return self.read(st, (v[1], v[2]))
        return v

    def inline(self, e, st, f):
        bound = self.bind(e, st, f)
        out = []
        for s, th, vs in bound:
            out += self.invoke(f, s, vs, th)
        return out

    def invoke(self, f, st, vs, this=None):
        """run f with bound values; returns [(st, value)]"""
        self.visited_fns.add(f["n"])
        st = st.clone()
        self.stack.append(f["id"])
        d = len(self.stack)
        try:
            for i, p in enumerate(f["ps"]):
                st.mem[("L", d, p["id"])] = vs[i] if i < len(vs) else UND
            if len(vs) > len(f["ps"]): st.mem[("L", d, "varargs")] = tuple(vs[len(f["ps"]):])
            if this is not None: st.mem[("L", d, "this")] = this
            isref = self.F.type(f["t"]).get("ref")
            norm, rets = self.run_fn(f, st, isref)
        finally:
            self.stack.pop()
        out = []
        for s in norm: out.append((s, UND))
        out += rets
        for s, v in out:
            if isinstance(s.mem, dict):
                dead = [r for r in s.mem if r[0] in ("L", "T") and r[1] >= d]
                # keep frames referenced by the returned value (none in this code base return such pointers)
                for r in dead: del s.mem[r]
        return self.dedupe_vals(out)

    def run_fn(self, f, st, isref):
        o = self.exec(f["b"], [st])
        if "goto" in o and o["goto"]:
            raise AnalysisBroken("goto not supported in %s" % f["n"])
        rets = []
        for s, node in o["ret"]:
            if isinstance(node, tuple) and len(node) == 2 and node[0] == "val": rets.append((s, node[1]))
        return o["norm"], rets

    def dedupe_vals(self, lst):
        if len(lst) < 3: return lst
        seen = {}; out = []
        for s, v in lst:
            k = (s.key(), v)
            if k in seen: continue
            seen[k] = 1; out.append((s, v))
        return out
    def dedupe(self, lst):
        if len(lst) < 2: return lst
        seen = set(); out = []
        for s in lst:
            k = s.key()
            if k in seen: continue
            seen.add(k); out.append(s)
        if len(out) > self.max_states: raise TooMany("too many states")
        return out

    # ---------- statements: outcome dict norm/brk/cont/ret
    def exec(self, n, states):
        o = {"norm": [], "brk": [], "cont": [], "ret": [], "goto": []}
        if n is None or not states:
            o["norm"] = list(states); return o
        getattr(self, "x_" + n["k"])(n, states, o)
        return o
    def merge(self, o, r, keys=("brk", "cont", "ret", "goto")):
        for k in keys: o[k] += r[k]
    def run_normal(self, n, st):
        return self.exec(n, [st])["norm"]

    def x_expr(self, n, states, o):
        for s in states:
            for s2, v in self.eval(n["e"], s): o["norm"].append(s2)
        if len(o["norm"]) > 8: o["norm"] = self.dedupe(o["norm"])
    def x_blk(self, n, states, o):
        cur = states
        for c in n["b"]:
            if c["k"] == "label" and o["goto"]:          # forward jumps to a label of this block
                cur = cur + [s for s, l in o["goto"] if l == c["n"]]
                o["goto"] = [(s, l) for s, l in o["goto"] if l != c["n"]]
            if not cur: continue
            r = self.exec(c, cur); self.merge(o, r); cur = r["norm"]
        o["norm"] += cur
    def x_nop(self, n, states, o): o["norm"] += states
    def x_decl(self, n, states, o):
        cur = states
        for v in n["v"]:
            nxt = []
            for s in cur: nxt += self.declare(v, s)
            cur = nxt
        o["norm"] += cur
    def declare(self, v, st):
        ty = self.F.type(v["t"])
        if v.get("static"):
            root = ("G", v["id"])
            if root in st.mem or "i" not in v: return [st]
            if "const" in ty["s"] or "const" in ty["c"]: return [st]
            return [st]
        root = ("L", len(self.stack), v["id"])
        if "i" not in v:
            st.mem[root] = UND; return [st]
        out = []
        if ty.get("ref"):
            for s, loc in self.lval(v["i"], st): s.mem[root] = ("ref", loc[0], loc[1]); out.append(s)
            return out
        for s, val in self.eval_init(v["i"], st, v["t"]):
            val = self.devalue(s, val)
            s.mem[root] = val
            self.on_write(s, (root, ()), val, v)
            out.append(s)
        return out
    def x_if(self, n, states, o):
        for s in states:
            pre = [s]
            if n.get("init"): pre = self.exec(n["init"], pre)["norm"]
            if n.get("cv"): pre = self.exec(n["cv"], pre)["norm"]
            T, Fl = [], []
            for s1 in pre:
                for s2, b in self.cond(n["c"], s1): (T if b else Fl).append(s2)
            if T:
                r = self.exec(n["x"], T); self.merge(o, r); o["norm"] += r["norm"]
            if Fl:
                if n["y"] is not None:
                    r = self.exec(n["y"], Fl); self.merge(o, r); o["norm"] += r["norm"]
                else: o["norm"] += Fl
        if len(o["norm"]) > 6: o["norm"] = self.dedupe(o["norm"])
    def x_ret(self, n, states, o):
        for s in states:
            if n["e"] is None: o["ret"].append((s, ("val", UND))); continue
            f = self.F.byid.get(self.stack[-1]) if self.stack else None
            if f is not None and self.F.type(f["t"]).get("ref"):
                for s2, loc in self.lval(n["e"], s): o["ret"].append((s2, ("val", ("refval", loc[0], loc[1]))))
                continue
            for s2, v in self.eval(n["e"], s): o["ret"].append((s2, ("val", self.devalue(s2, v))))
    def x_break(self, n, states, o): o["brk"] += states
    def x_cont(self, n, states, o): o["cont"] += states
    def x_goto(self, n, states, o): o["goto"] += [(s, n["n"]) for s in states]
    def x_label(self, n, states, o):
        r = self.exec(n["s"], states); self.merge(o, r); o["norm"] += r["norm"]
    def x_case(self, n, states, o):
        r = self.exec(n["s"], states); self.merge(o, r); o["norm"] += r["norm"]
    x_default = x_case
    def x_unkstmt(self, n, states, o): raise AnalysisBroken("unsupported statement %s" % n["cls"])

    def loop(self, n, states, o, cond, body, step, post_test=False):
        cur = states; it = 0; exits = []
        seen = set()
        while cur:
            cur = self.at_head(n, cur, it)
            if not post_test or it > 0:
                nxt = []
                for s in cur:
                    if cond is None: nxt.append(s); continue
                    for s2, b in self.cond(cond, s): (nxt if b else exits).append(s2)
                cur = nxt
            # fixpoint by state identity
            keep = []
            for s in cur:
                k = s.key()
                if k in seen: continue
                seen.add(k); keep.append(s)
            cur = keep
            if not cur: break
            if it >= self.loop_bound(n, cur):
                self.cut_loops.add(n["l"]); self.on_cut(n, cur); break
            it += 1
            r = self.exec(body, cur)
            exits += r["brk"]; o["ret"] += r["ret"]; o["goto"] += r["goto"]
            cur = r["norm"] + r["cont"]
            if step is not None:
                nxt = []
                for s in cur:
                    for s2, v in self.eval(step, s): nxt.append(s2)
                cur = nxt
            cur = self.dedupe(cur)
        o["norm"] += self.dedupe(exits)
    def loop_bound(self, n, cur):
        # a loop whose control is concrete (every decision so far constant) runs to completion; others are cut
        return self.max_iter
    def on_cut(self, n, states): pass
    def at_head(self, n, states, it): return states
    def x_while(self, n, states, o): self.loop(n, states, o, n["c"], n["b"], None)
    def x_do(self, n, states, o):
        if "cv" in n["c"] and n["c"]["cv"] == 0:
            r = self.exec(n["b"], states)
            o["ret"] += r["ret"]; o["goto"] += r["goto"]; o["norm"] += r["norm"] + r["brk"] + r["cont"]; return
        self.loop(n, states, o, n["c"], n["b"], None, post_test=True)
    def x_for(self, n, states, o):
        cur = states
        if n["i"] is not None: cur = self.exec(n["i"], cur)["norm"]
        self.loop(n, cur, o, n["c"], n["b"], n["s"])
    def x_switch(self, n, states, o):
        items = []
        def flat(s):
            while s is not None and s["k"] in ("case", "default"):
                if s["k"] == "case":
                    vals = (s["v"],) if "v2" not in s else tuple(range(s["v"], s["v2"] + 1))
                    items.append(("L", vals))
                else: items.append(("D",))
                s = s["s"]
            if s is not None: items.append(("S", s))
        b = n["b"]
        for s in (b["b"] if b["k"] == "blk" else [b]): flat(s)
        groups = []   # (values or None, start index)
        i = 0
        default_at = None
        while i < len(items):
            if items[i][0] in ("L", "D"):
                vals = []; j = i; hasd = False
                while j < len(items) and items[j][0] in ("L", "D"):
                    if items[j][0] == "L": vals += items[j][1]
                    else: hasd = True
                    j += 1
                if hasd: default_at = j
                else: groups.append((tuple(vals), j))
                if hasd and vals: groups.append((tuple(vals), j))
                i = j
            else: i += 1
        allv = [v for g, _ in groups for v in g]
        work = []
        for s in states:
            for s1, v in self.eval(n["c"], s):
                v = self.devalue(s1, v)
                if is_c(v):
                    for g, j in groups:
                        if v[1] in g: work.append((s1, j)); break
                    else: work.append((s1, default_at))
                    continue
                dom = self.getdom(s1, v) if not isinstance(v, Rec) else TOP
                if isinstance(v, Rec) or v == UND:
                    for g, j in groups: work.append((s1.clone(), j))
                    work.append((s1.clone(), default_at)); continue
                for g, j in groups:
                    if len(g) == 1: s2 = self.refine(s1, v, "==", g[0])
                    else: s2 = self.refine_in(s1, v, g)
                    if s2 is not None: work.append((s2 if s2 is not s1 else s1.clone(), j))
                s2 = s1
                for x in allv:
                    s2 = self.refine(s2, v, "!=", x)
                    if s2 is None: break
                if s2 is not None: work.append((s2 if s2 is not s1 else s1.clone(), default_at))
        byj = {}
        for s, j in work: byj.setdefault(j, []).append(s)
        for j, ss in byj.items():
            if j is None: o["norm"] += ss; continue
            cur = ss
            for it in items[j:]:
                if it[0] != "S": continue
                if not cur: break
                r = self.exec(it[1], cur)
                o["norm"] += r["brk"]; o["cont"] += r["cont"]; o["ret"] += r["ret"]; o["goto"] += r["goto"]
                cur = r["norm"]
            o["norm"] += cur

    # ---------- entry
    def run(self, fname, args, st=None, this=None):
        f = self.F.fn(fname) if isinstance(fname, str) else fname
        st = st or State()
        return self.invoke(f, st, args, this)
