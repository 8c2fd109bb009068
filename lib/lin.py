"""Linear relational abstract interpretation of container code: integers are linear forms over symbols, the path condition is a conjunction of linear
inequalities (implication and emptiness by Fourier-Motzkin elimination), memory is blocks of symbolic size whose content is a log of region writes.
Loops are accelerated: the variables a loop changes become symbols constrained by inductive bounds, and the region a loop writes is one region write."""
from fractions import Fraction
import gx
from gx import AnalysisBroken
from absint import Interp, State, Rec, C0, C1, UND, is_c, is_addr, NEG, SWAP

# ---- linear forms: {symbol: coef} + const, as ("lin", ((sym, coef)...), const); constants stay ("c", n)
def mk(d, c):
    d = {k: v for k, v in d.items() if v}
    return ("lin", tuple(sorted(d.items(), key=repr)), c) if d else ("c", c)
def sym(n): return mk({n: 1}, 0)
def isnum(v): return type(v) is tuple and v and v[0] in ("c", "lin")
def parts(v): return ({}, v[1]) if v[0] == "c" else (dict(v[1]), v[2])
def add(a, b, k=1):
    da, ca = parts(a); db, cb = parts(b); d = dict(da)
    for s, c in db.items(): d[s] = d.get(s, 0) + k * c
    return mk(d, ca + k * cb)
def scale(a, k):
    d, c = parts(a); return mk({s: v * k for s, v in d.items()}, c * k)
def sub(a, b): return add(a, b, -1)
def divexact(a, k):
    d, c = parts(a)
    if any(v % k for v in d.values()) or c % k: return None
    return mk({s: v // k for s, v in d.items()}, c // k)

def feasible(cons):
    """cons: iterable of linear forms meaning form <= 0; rational feasibility by Fourier-Motzkin"""
    rows = set()
    for f in cons:
        d, c = parts(f)
        if not d:
            if c > 0: return False
            continue
        rows.add((tuple(sorted(d.items(), key=repr)), c))
    while rows:
        cnt = {}
        for r, c in rows:
            for s, k in r: cnt.setdefault(s, [0, 0])[0 if k > 0 else 1] += 1
        s = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
        pos = []; neg = []; rest = set()
        for r, c in rows:
            k = dict(r).get(s, 0)
            (pos if k > 0 else neg if k < 0 else rest).append((r, c)) if k else rest.add((r, c))
        for rp, cp in pos:
            kp = dict(rp)[s]
            for rn, cn in neg:
                kn = -dict(rn)[s]
                d = {}
                for t, v in rp: d[t] = d.get(t, 0) + v * kn
                for t, v in rn: d[t] = d.get(t, 0) + v * kp
                d.pop(s, None); d = {t: v for t, v in d.items() if v}; c = cp * kn + cn * kp
                if not d:
                    if c > 0: return False
                    continue
                import math
                g = 0
                for v in d.values(): g = math.gcd(g, v)
                if g > 1: d = {t: v // g for t, v in d.items()}; c = -((-c) // g)     # integer tightening
                rest.add((tuple(sorted(d.items(), key=repr)), c))
        if len(rest) > 4000: return True
        rows = rest
    return True

class Bad(Exception): pass

class LinInterp(Interp):
    """block pointers: ("addr", ("B", id), (("b", byte offset),))"""
    HDR = 32
    def __init__(self, F, esz, **kw):
        Interp.__init__(self, F, max_iter=2, inline_depth=20, **kw); self.esz = esz; self.budget = 4_000_000
        self.viol = []; self.nobl = 0; self.nb = 0; self.loops = []
        for n in ("alloc", "alloc_align"): self.models[n] = LinInterp.m_alloc
        self.models["allocator_free"] = LinInterp.m_free
        for n in ("resize", "resize_align"): self.models[n] = LinInterp.m_resize
        for n in ("mem_copy", "mem_move", "memcpy", "memmove"): self.models[n] = LinInterp.m_copy
        for n in ("mem_set", "memset", "zero_size"): self.models[n] = LinInterp.m_set
        self.models["log_fmt"] = lambda s, e, st: [(st, C0)]
        self.models["assert_handler"] = lambda s, e, st: [(st, C0)]
    # ---- constraints
    def cons(self, st): return st.x.get("lin", ())
    def assume(self, st, *forms):
        """copy of st with form <= 0 added, or None"""
        c = self.cons(st) + tuple(f for f in forms)
        if not feasible(c): return None
        s = st.clone(); s.x["lin"] = c; return s
    def implies(self, st, form):     # form <= 0 ?
        return not feasible(self.cons(st) + (add(scale(form, -1), C1),))
    def le(self, st, a, b): return self.implies(st, sub(a, b))
    def fail(self, st, node, what):
        self.viol.append((node["l"] if node else 0, what))
    def num(self, st, v):
        if isnum(v): return v
        if v == UND or isinstance(v, Rec) or is_addr(v): return None
        return mk({v: 1}, 0)
    # ---- arithmetic and comparison
    def arith(self, st, op, a, b):
        if isinstance(a, Rec) or isinstance(b, Rec) or is_addr(a) or is_addr(b) or a == UND or b == UND: return Interp.arith(self, st, op, a, b)
        if is_c(a) and is_c(b): return Interp.arith(self, st, op, a, b)
        x, y = self.num(st, a), self.num(st, b)
        if op == "+": return add(x, y)
        if op == "-": return sub(x, y)
        if op == "*":
            if is_c(y): return scale(x, y[1])
            if is_c(x): return scale(y, x[1])
        if op == "<<" and is_c(y): return scale(x, 1 << y[1])
        if op == "/" and is_c(y) and y[1] > 0 and divexact(x, y[1]) is not None: return divexact(x, y[1])
        if op in ("/", "%", ">>") and self.le(st, C0, x) and (is_c(y) and y[1] > 0 or op == "%" and self.le(st, C1, y)):
            k = ("c", y[1] if op != ">>" else 1 << y[1]) if is_c(y) else y
            r = mk({("r", x, k): 1}, 0)
            c = (scale(r, -1), add(sub(r, k), C1))
            if is_c(k):
                q = mk({("q", x, k): 1}, 0)                                   # x = k q + r
                e = sub(x, add(scale(q, k[1]), r))
                st.x["lin"] = self.cons(st) + c + (e, scale(e, -1))
                return r if op == "%" else q
            if op == "%":
                st.x["lin"] = self.cons(st) + c
                return r
        return mk({("op", op, a, b): 1}, 0)
    def cmpterm(self, st, op, a, b):
        if isinstance(a, Rec) or isinstance(b, Rec): return ("cmp", op, a, b)
        a2, b2 = a, b
        if is_addr(a) and is_addr(b) and a[1] == b[1] and a[1][0] == "B": a2, b2 = a[2][0][1], b[2][0][1]
        elif is_addr(a) or is_addr(b) or a == UND or b == UND or (type(a) is tuple and a[0] in ("str", "cmp", "fn", "not")) or (type(b) is tuple and b[0] in ("str", "cmp", "fn")):
            if op in ("<", "<=", ">", ">=") and (is_addr(a) and b == C0 or is_addr(b) and a == C0): return op in ((">", ">=") if is_addr(a) else ("<", "<="))
            return Interp.cmpterm(self, st, op, a, b)
        if is_c(a2) and is_c(b2): return Interp.cmpterm(self, st, op, a2, b2)
        x, y = self.num(st, a2), self.num(st, b2)
        t, f = self.split(x, y, op)
        if all(self.implies(st, g) for g in t) and op != "!=": return True
        if all(self.implies(st, g) for g in f) and op != "==": return False
        if op in ("==", "!="):
            if self.implies(st, add(sub(x, y), C1)) or self.implies(st, add(sub(y, x), C1)): return op == "!="
        return ("cmp", op, x, y)
    def split(self, x, y, op):
        d = sub(x, y); n = sub(y, x)
        return {"<": ((add(d, C1),), (n,)), "<=": ((d,), (add(n, C1),)), ">": ((add(n, C1),), (d,)), ">=": ((n,), (add(d, C1),)),
                "==": ((d, n), (d, n)), "!=": ((d, n), (d, n))}[op]
    def branch(self, st, v):
        if type(v) is tuple and v and v[0] == "lin": v = ("cmp", "!=", v, C0)
        if type(v) is tuple and v and v[0] == "cmp" and isnum(v[2]) and isnum(v[3]):
            _, op, x, y = v; out = []
            d = sub(x, y); n = sub(y, x)
            if op in ("==", "!="):
                for fs, b in (((d, n), op == "=="), ((add(d, C1),), op != "=="), ((add(n, C1),), op != "==")):
                    s = self.assume(st, *fs)
                    if s is not None: out.append((s, b))
            else:
                t, f = self.split(x, y, op)
                for fs, b in ((t, True), (f, False)):
                    s = self.assume(st, *fs)
                    if s is not None: out.append((s, b))
            return out
        return Interp.branch(self, st, v)
    # ---- blocks
    def newblock(self, st, size, tag):
        self.nb += 1; b = ("B", "%s%d" % (tag, self.nb)); st.mem[("BS", b)] = size; st.mem[("BW", b)] = (); return b
    def ptr(self, b, off): return ("addr", b, (("b", off),))
    def isbp(self, v): return is_addr(v) and v[1][0] == "B"
    def access(self, st, node, b, off, ln, how):
        self.nobl += 1
        if st.mem.get(("BF", b)): self.fail(st, node, "%s of storage that was already released" % how); return
        sz = st.mem[("BS", b)]
        if not isnum(ln) or not isnum(off): self.fail(st, node, "%s with an unbounded extent" % how); return
        if not self.le(st, C0, ln): self.fail(st, node, "%s of a length that can be negative" % how)
        elif not self.le(st, C0, off): self.fail(st, node, "%s before the start of the storage" % how)
        elif not self.le(st, add(off, ln), sz):
            s2 = self.assume(st, add(scale(ln, -1), C1))          # an empty access is no access
            if s2 is not None and not self.le(s2, add(off, ln), sz): self.fail(st, node, "%s beyond the storage" % how)
    # ---- pointer arithmetic needs the element size
    def pointee(self, e):
        t = self.F.type(e.get("t", -1)); c = t.get("c", "")
        if t["k"] != "ptr": return t.get("esz") or 1
        c = c.rstrip(); c = c[:-6] if c.endswith("*const") else c
        c = c.rstrip().rstrip("*").strip()
        for q in ("const ", "volatile "):
            if c.startswith(q): c = c[len(q):]
        if c.endswith("*"): return 8
        if not hasattr(self.F, "_szof"):
            self.F._szof = {}
            for x in self.F.types:
                n = x.get("c", "")
                for q in ("const ",):
                    if n.startswith(q): n = n[len(q):]
                if x.get("size"): self.F._szof.setdefault(n, x["size"])
        z = self.F._szof.get(c)
        if z is None: raise AnalysisBroken("size of %s unknown" % c)
        return z
    def padd(self, st, p, n, esz):
        n = self.num(st, n)
        return self.ptr(p[1], add(p[2][0][1], scale(n, esz)))
    def binary(self, e, st):
        o = e["o"]
        if o in ("+", "-") and "cv" not in e:
            out = []; hit = False
            for s, a in self.eval(e["x"], st):
                a = self.devalue(s, a)
                for s2, b in self.eval(e["y"], s):
                    b = self.devalue(s2, b)
                    if self.isbp(a) and self.isbp(b) and o == "-" and a[1] == b[1]:
                        d = sub(a[2][0][1], b[2][0][1]); k = self.pointee(e["x"]); out.append((s2, divexact(d, k) or mk({("op", "/", d, k): 1}, 0)))
                    elif self.isbp(a): out.append((s2, self.padd(s2, a, b if o == "+" else scale(self.num(s2, b), -1), self.pointee(e["x"]))))
                    elif self.isbp(b) and o == "+": out.append((s2, self.padd(s2, b, a, self.pointee(e["y"]))))
                    else: out.append((s2, self.arith(s2, o, a, b)))
            return out
        return Interp.binary(self, e, st)
    def unary(self, e, st):
        if e["o"] in ("++", "--"):
            out = []
            for s, loc in self.lval(e["e"], st):
                v = self.read(s, loc)
                nv = self.padd(s, v, C1 if e["o"] == "++" else ("c", -1), self.pointee(e["e"])) if self.isbp(v) else self.arith(s, "+" if e["o"] == "++" else "-", v, C1)
                self.write(s, loc, nv, e); out.append((s, v if e.get("post") else nv))
            return out
        return Interp.unary(self, e, st)
    def assign(self, e, st):
        op = e["o"]
        if op in ("+=", "-="):
            out = []
            for s, v in self.eval(e["y"], st):
                v = self.devalue(s, v)
                for s2, loc in self.lval(e["x"], s):
                    o = self.read(s2, loc)
                    nv = self.padd(s2, o, v if op == "+=" else scale(self.num(s2, v), -1), self.pointee(e["x"])) if self.isbp(o) else self.arith(s2, op[0], o, v)
                    self.write(s2, loc, nv, e); out.append((s2, loc, nv))
            return out
        out = []
        for s, loc, v in Interp.assign(self, e, st): out.append((s, loc, v))
        return out
    def width(self, e): return self.F.type(e.get("t", -1)).get("size", 8) or 8
    def lval(self, e, st):
        k = e["k"]
        if k == "idx":
            out = []; plain = True
            for s, b in self.eval(e["b"], st):
                b = self.devalue(s, b)
                for s2, i in self.eval(e["i"], s):
                    i = self.devalue(s2, i)
                    if self.isbp(b):
                        p = self.padd(s2, b, i, self.width(e)); out.append((s2, (p[1], p[2] + (("w", self.width(e)),)))); plain = False
                    else:
                        p = self.arith(s2, "+", b, i)
                        for s3, loc in self.deref(s2, p if is_addr(p) else b, e, "[]"): out.append((s3, loc if is_addr(p) else (loc[0], loc[1] + (("i", i),))))
            return out
        if k == "mem":
            rec = e.get("r") or ""
            if rec.startswith(("Array<", "gen::Array<")) or rec in ("Array", "gen::Array", "StrBuilder", "StrBuilder_POD", "gen::StrBuilder"):
                if e["n"] == "Data":                                        # the handle is its only field
                    if e["a"]: return [(s2, loc) for s, v in self.eval(e["b"], st) for s2, loc in self.deref(s, self.devalue(s, v), e)]
                    return self.lval(e["b"], st)
            f = next((x for x in self.F.records[rec]["f"] if x["n"] == e["n"]), None) if rec in self.F.records else None
            base = []
            if e["a"]:
                for s, v in self.eval(e["b"], st): base += self.deref(s, self.devalue(s, v), e, e["n"])
            else: base = self.lval(e["b"], st)
            out = []
            for s, loc in base:
                if loc[0][0] == "B" and f: out.append((s, (loc[0], (("b", add(loc[1][0][1], ("c", f["off"]))), ("w", f["size"])))))
                else: out.append((s, (loc[0], loc[1] + (self.canon(rec, e["n"]),))))
            return out
        if k == "deref":
            out = []
            for s, v in self.eval(e["e"], st):
                v = self.devalue(s, v)
                if self.isbp(v): out.append((s, (v[1], v[2] + (("w", self.width(e)),))))
                else: out += self.deref(s, v, e)
            return out
        return Interp.lval(self, e, st)
    def read(self, st, loc):
        if loc[0][0] != "B":
            return Interp.read(self, st, loc)
        b = loc[0]; off = loc[1][0][1]; w = loc[1][1][1] if len(loc[1]) > 1 else 1
        self.access(st, self.cur, b, off, ("c", w), "a read")
        c = st.mem.get(("BC", b, off))
        if c is not None: return c
        if is_c(off) and off[1] < self.HDR: return UND if not str(b[1]).startswith("in") else mk({("hdr", b, off[1]): 1}, 0)
        return ("elem", b, st.mem[("BW", b)], off, w)
    def write(self, st, loc, val, node=None):
        if loc[0][0] != "B":
            return Interp.write(self, st, loc, val, node)
        b = loc[0]; off = loc[1][0][1]; w = loc[1][1][1] if len(loc[1]) > 1 else 1
        self.access(st, node or self.cur, b, off, ("c", w), "a write")
        if is_c(off) and off[1] + w <= self.HDR: st.mem[("BC", b, off)] = val; return
        st.mem[("BW", b)] = st.mem[("BW", b)] + ((off, ("c", w), ("val", val)),)
    cur = None
    def eval(self, e, st):
        self.cur = e
        if e["k"] == "init" and e.get("a") and len(e["a"]) == 1 and (e.get("r") or "").startswith(("Array", "StrBuilder", "gen::Array")) and "Header" not in e["r"]:
            return self.eval(e["a"][0], st)
        return Interp.eval(self, e, st)
    def eval_init(self, e, st, t):
        if e["k"] == "init" and e.get("a") and len(e["a"]) == 1 and (e.get("r") or "").startswith(("Array", "StrBuilder", "gen::Array")) and "Header" not in e["r"]:
            return self.eval_init(e["a"][0], st, e["a"][0].get("t", -1))
        return Interp.eval_init(self, e, st, t)
    def conv(self, st, v, e):
        return v
    # ---- models
    def m_alloc(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            vs = tuple(self.devalue(s, v) for v in vs)
            s0 = s.clone(); s0.x["oom"] = True; out.append((s0, C0))
            s2 = s.clone(); b = self.newblock(s2, self.num(s2, vs[1]), "new"); out.append((s2, self.ptr(b, C0)))
        return out
    def m_free(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            v = self.devalue(s, vs[1]); s = s.clone(); self.nobl += 1
            if not self.isbp(v) or v[2][0][1] != C0: self.fail(s, e, "memory is released that is not the start of the storage")
            elif s.mem.get(("BF", v[1])): self.fail(s, e, "the storage is released twice")
            else: s.mem[("BF", v[1])] = C1
            out.append((s, C0))
        return out
    def m_resize(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            vs = tuple(self.devalue(s, v) for v in vs)
            s0 = s.clone(); s0.x["oom"] = True; out.append((s0, C0))
            s2 = s.clone(); p, old, new = vs[1], self.num(s2, vs[2]), self.num(s2, vs[3])
            b = self.newblock(s2, new, "new"); self.nobl += 1
            if not self.isbp(p) or p[2][0][1] != C0: self.fail(s2, e, "memory is resized that is not the start of the storage"); continue
            if not self.le(s2, old, s2.mem[("BS", p[1])]): self.fail(s2, e, "resize is told a size larger than the storage")
            if not self.le(s2, old, new): self.fail(s2, e, "resize cuts off content")
            self.copy(s2, e, b, C0, p[1], C0, old)
            s2.mem[("BF", p[1])] = C1
            out.append((s2, self.ptr(b, C0)))
        return out
    def copy(self, s, e, db, do, sb, so, ln):
        self.access(s, e, db, do, ln, "a write"); self.access(s, e, sb, so, ln, "a read")
        snap = s.mem[("BW", sb)]
        if do == C0 and so == C0 and self.le(s, ("c", self.HDR), ln):
            for k, v in list(s.mem.items()):
                if k[0] == "BC" and k[1] == sb: s.mem[("BC", db, k[2])] = v
            if str(sb[1]).startswith("in"):
                for o in (0, 8, 16, 24):
                    if ("BC", sb, ("c", o)) not in s.mem: s.mem[("BC", db, ("c", o))] = mk({("hdr", sb, o): 1}, 0)
            do = so = ("c", self.HDR); ln = sub(ln, ("c", self.HDR))
        s.mem[("BW", db)] = s.mem[("BW", db)] + ((do, ln, ("copy", sb, snap, so)),)
    def m_copy(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            d, sr, ln = (self.devalue(s, v) for v in vs[:3]); s = s.clone()
            if self.isbp(d) and is_addr(sr) and sr[1][0] in ("L", "T") and is_c(ln) and ln[1] == self.F_width(sr, s):
                self.access(s, e, d[1], d[2][0][1], ln, "a write")
                s.mem[("BW", d[1])] = s.mem[("BW", d[1])] + ((d[2][0][1], ln, ("val", self.read(s, (sr[1], sr[2])))),)
                out.append((s, d)); continue
            if not self.isbp(d) or not self.isbp(sr):
                if not (is_c(ln) and ln[1] == 0): self.fail(s, e, "copies to or from an unknown place")
                out.append((s, d)); continue
            ln = self.num(s, ln)
            if e["n"] in ("mem_copy", "memcpy") and d[1] == sr[1]:
                self.nobl += 1
                if not (self.le(s, add(d[2][0][1], ln), sr[2][0][1]) or self.le(s, add(sr[2][0][1], ln), d[2][0][1])): self.fail(s, e, "overlapping regions are copied with a copy that does not allow it")
            self.copy(s, e, d[1], d[2][0][1], sr[1], sr[2][0][1], ln)
            out.append((s, d))
        return out
    def F_width(self, a, s): return self.esz
    def m_set(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            d = self.devalue(s, vs[0]); v = self.devalue(s, vs[1]) if len(vs) > 2 else C0; ln = self.devalue(s, vs[-1]); s = s.clone()
            if not self.isbp(d): self.fail(s, e, "fills an unknown place"); out.append((s, d)); continue
            ln = self.num(s, ln); self.access(s, e, d[1], d[2][0][1], ln, "a write")
            s.mem[("BW", d[1])] = s.mem[("BW", d[1])] + ((d[2][0][1], ln, ("fill", v)),)
            out.append((s, d))
        return out
    # ---- loops
    def assigned(self, nodes, acc):
        for n in nodes:
            for x in gx.walk(n):
                if x["k"] == "asg" or (x["k"] == "un" and x["o"] in ("++", "--")):
                    t = x["x"] if x["k"] == "asg" else x["e"]
                    while t["k"] in ("cast", "icast"): t = t["e"]
                    if t["k"] == "var" and t["s"] not in ("g", "s"): acc[t["id"]] = t
        return acc
    def loop(self, n, states, o, cond, body, step, post_test=False):
        for st0 in states: self.one_loop(n, st0, o, cond, body, step, post_test)
    def one_loop(self, n, st0, o, cond, body, step, post_test):
        ids = self.assigned([x for x in (cond, body, step) if x], {})
        st = st0.clone(); d = len(self.stack); sy = {}
        for i in ids:
            r = ("L", d, i)
            if r not in st.mem: continue
            v = st.mem[r]
            if type(v) is tuple and v and v[0] == "ref": raise AnalysisBroken("loop changes a reference")
            s_ = ("it", id(n), i, st.n)
            if self.isbp(v):                                            # a pointer moves in whole elements
                z = self.pointee(ids[i]); sy[r] = (s_, C0, z, v); st.mem[r] = self.ptr(v[1], add(v[2][0][1], mk({s_: z}, 0)))
            elif isnum(v): sy[r] = (s_, v, 1, None); st.mem[r] = mk({s_: 1}, 0)
            else: st.mem[r] = ("unk", id(n), i, st.n)
        def val(v): return v[2][0][1] if self.isbp(v) else v
        def now(x, r):
            """value of the loop symbol of r in state x"""
            s_, v0, z, p0 = sy[r]; v = x.mem[r]
            if p0 is None: return v if isnum(v) else None
            if not self.isbp(v) or v[1] != p0[1]: return None
            return divexact(sub(v[2][0][1], p0[2][0][1]), z)
        # candidate bounds: monotone direction and every known linear value
        cands = []
        terms = [v for k, v in st0.mem.items() if k[0] == "L" and isnum(v) and k not in sy] + [val(v) for k, v in st0.mem.items() if k[0] == "L" and self.isbp(v) and k not in sy]
        for k in list(st0.mem):
            if k[0] == "BC" and isnum(st0.mem[k]): terms.append(st0.mem[k])
        for f in self.cons(st0):
            pass
        syms = set()
        for f in self.cons(st0): syms |= set(parts(f)[0])
        terms += [mk({q: 1}, 0) for q in syms]
        for e_ in terms[:]:
            for k in (self.esz,):
                if k != 1: terms.append(scale(e_, k)); terms.append(add(scale(e_, k), ("c", self.HDR)))
        terms += [C0, ("c", -1)]
        seen = set()
        ptrs = [v for k, v in st0.mem.items() if k[0] == "L" and self.isbp(v)]
        for r, (s_, v0, z, p0) in sy.items():
            more = [divexact(sub(q[2][0][1], p0[2][0][1]), z) for q in ptrs if q[1] == p0[1]] if p0 else []
            if p0: more += [divexact(sub(t, p0[2][0][1]), z) for t in terms]
            for t in terms + [v0] + [m for m in more if m is not None]:
                for form in (sub(mk({s_: 1}, 0), t), sub(t, mk({s_: 1}, 0))):
                    if (r, form) in seen: continue
                    seen.add((r, form))
                    f0 = self.subst(form, s_, v0)
                    if self.implies(st0, f0): cands.append(form)
        mem0 = dict(st.mem)
        def run(cs):
            """states at the head, states after the condition, states after one iteration"""
            h = st.clone(); h.x["lin"] = self.cons(st) + tuple(cs); h.mem = dict(mem0)
            if not feasible(h.x["lin"]): return [], [], {"norm": [], "brk": [], "cont": [], "ret": [], "goto": []}
            ins, outs = [], []
            if post_test or cond is None: ins = [h]
            else:
                for s, b in self.cond(cond, h): (ins if b else outs).append(s)
            r = self.exec(body, ins)
            nxt = r["norm"] + r["cont"]
            if step is not None: nxt = [s for x in nxt for s, _ in self.eval(step, x)]
            if post_test and cond is not None:
                n2 = []
                for x in nxt:
                    for s, b in self.cond(cond, x): (n2 if b else outs).append(s)
                nxt = n2
            return nxt, outs, r
        for rnd in range(12):
            keep = self.viol, self.nobl; self.viol = []
            nxt, outs, r = run(cands)
            self.viol, self.nobl = keep
            good = []
            for form in cands:
                ok = True
                for x in nxt:
                    f1 = form
                    for rr, (s_, v0, z, p0) in sy.items():
                        nv = now(x, rr)
                        if nv is None: ok = False; break
                        if s_ in dict(parts(f1)[0]): f1 = self.subst(f1, s_, nv)
                    if not ok or not self.implies(x, f1): ok = False; break
                if ok: good.append(form)
            if len(good) == len(cands): break
            cands = good
        nxt, outs, r = run(cands)
        # content written by the loop: one region per write of the body
        writes = {}
        eff = [x for x in nxt] 
        for x in eff:
            for k, v in x.mem.items():
                if k[0] == "BW" and v != mem0.get(k, ()):
                    new = v[len(mem0.get(k, ())):]
                    if k in writes and writes[k] != new: raise AnalysisBroken("a loop writes different regions on different paths")
                    writes[k] = new
                if k[0] in ("BC", "BF", "BS") and v != mem0.get(k): raise AnalysisBroken("a loop changes a header or releases storage")
        for s in outs + [x for x in r["brk"]]:
            if s in r["brk"] and writes: raise AnalysisBroken("a loop that writes is left early")
            for k, new in writes.items():
                if len(new) != 1: raise AnalysisBroken("a loop with several writes")
                (off, ln, src), = new
                piv = [(rr, q[0], q[1]) for rr, q in sy.items() if q[0] in parts(off)[0]]
                if len(piv) != 1 or not is_c(ln): raise AnalysisBroken("a loop writes at an irregular place")
                rr, s_, v0 = piv[0]; nv = now(nxt[0], rr)
                if nv is None: raise AnalysisBroken("a loop with an irregular stride")
                stepd = sub(nv, mk({s_: 1}, 0)); co = parts(off)[0][s_]
                if stepd not in (C1, ("c", -1)) and not (is_c(stepd) and abs(stepd[1] * co) == ln[1]): raise AnalysisBroken("a loop with an irregular stride")
                dirn = 1 if stepd[1] * co > 0 else -1
                if abs(stepd[1] * co) != ln[1]: raise AnalysisBroken("a loop that leaves gaps")
                first = self.subst(off, s_, v0); last = off
                cnt_up = (first, sub(last, first)) if dirn > 0 else (add(last, ln), sub(first, last))
                if src[0] == "val":
                    v = src[1]
                    if type(v) is tuple and v and v[0] == "elem":
                        if v[4] != ln[1]: raise AnalysisBroken("a loop copies with different widths")
                        dlt = sub(v[3], off)
                        if s_ in parts(dlt)[0]: raise AnalysisBroken("a loop copies with different strides")
                        if v[1] == k[1] and v[2] == mem0.get(k, ()):
                            if not (dirn > 0 and self.le(s, C0, dlt) or dirn < 0 and self.le(s, dlt, C0)):
                                self.fail(s, n, "a loop copies over elements it has yet to read"); v = None
                        src = ("copy", v[1], v[2], add(cnt_up[0], dlt)) if v else ("val", ("overwritten",))
                    elif s_ in repr(v) if type(s_) is str else any(s_ == q for q in self.symsof(v)): raise AnalysisBroken("a loop writes varying values")
                    else: src = ("rep", v, ln[1])
                s.mem[k] = mem0.get(k, ()) + ((cnt_up[0], cnt_up[1], src),)
            o["norm"].append(s)
        o["ret"] += r["ret"]; o["goto"] += r["goto"]
    def symsof(self, v):
        if isnum(v): return list(parts(v)[0])
        return []
    def subst(self, form, s_, v):
        d, c = parts(form); k = d.pop(s_, 0)
        return add(mk(d, c), scale(v, k)) if k else form

    # ---- what an element of a block holds
    def content(self, st, b, writes, i, depth=0):
        """element i (linear) of block b -> [(state, source)] with source ("init", block, index) / ("val", v) / ("undef",)"""
        esz, hdr = self.esz, (self.HDR if not str(b[1]).startswith("items") else 0)
        out = []
        for j in range(len(writes) - 1, -1, -1):
            off, ln, src = writes[j]
            lo, n = divexact(sub(off, ("c", hdr)), esz), divexact(ln, esz)
            if lo is None or n is None:
                fo = sub(add(("c", hdr), scale(i, esz)), off)         # an unaligned write must lie wholly before or behind
                bef = self.implies(st, add(fo, ("c", esz))); beh = self.implies(st, sub(ln, fo))
                if bef or beh: continue
                return out + [(st, ("mixed",))]
            before = self.assume(st, add(sub(i, lo), C1)); behind = self.assume(st, sub(add(lo, n), i))
            inside = self.assume(st, sub(lo, i), add(sub(i, add(lo, n)), C1))
            if inside is not None:
                if src[0] == "val": out.append((inside, ("val", src[1])))
                elif src[0] == "rep": out.append((inside, ("val", src[1])))
                elif src[0] == "fill": out.append((inside, ("val", src[1])))
                else:
                    sb, snap, so = src[1], src[2], src[3]; sh = 0 if str(sb[1]).startswith("items") else self.HDR
                    so2 = divexact(sub(so, ("c", sh)), esz)
                    if so2 is None: out.append((inside, ("mixed",)))
                    else: out += self.content(inside, sb, snap, add(so2, sub(i, lo)), depth + 1)
            rest = [x for x in (before, behind) if x is not None]
            if not rest: return out
            if len(rest) == 2:
                return out + self.content(rest[0], b, writes[:j], i, depth) + self.content(rest[1], b, writes[:j], i, depth)
            st = rest[0]
        return out + [(st, ("init", b, i) if str(b[1]).startswith(("in", "items")) else ("undef",))]
    def settle(self, st, v):
        """("val", elem...) read back from memory -> its source"""
        if v[0] == "val" and type(v[1]) is tuple and v[1] and v[1][0] == "elem":
            _, b, snap, off, w = v[1]; sh = 0 if str(b[1]).startswith("items") else self.HDR
            i = divexact(sub(off, ("c", sh)), self.esz)
            if i is None: return [(st, ("mixed",))]
            return self.content(st, b, snap, i)
        return [(st, v)]
