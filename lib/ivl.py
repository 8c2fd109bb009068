"""Join-based abstract interpretation with difference bounds (sparse zones): keys are locals and memory paths, a state holds upper bounds of
differences between keys (and the constant 0).  States are kept apart while boolean locals have different known values.  Loops are solved by
iteration with threshold widening; small callees are evaluated inline, others invalidate the fields they may write (transitive summary)."""
import gx
from gx import AnalysisBroken, strip
INF = float("inf")
Z = "0"

class Zone:
    """upper bounds of differences: s[a][b] = c means a - b <= c"""
    __slots__ = ("s", "k")
    def __init__(self, s=None): self.s = s if s is not None else {}; self.k = None
    def clone(self):
        z = Zone({a: dict(m) for a, m in self.s.items()}); z.k = self.k; return z
    def get(self, a, b, d=INF):
        m = self.s.get(a)
        return d if m is None else m.get(b, d)
    def set(self, a, b, c):
        m = self.s.get(a)
        if m is None: m = self.s[a] = {}
        m[b] = c; self.k = None
    def items(self):
        for a, m in self.s.items():
            for b, c in m.items(): yield (a, b), c
    @property
    def d(self): return {p: c for p, c in self.items()}
    def ub(self, a, b, depth=4):
        """least known c with a - b <= c"""
        if a == b: return 0
        s = self.s
        m = s.get(a)
        if m is None: return INF
        best = m.get(b, INF)
        dist = {a: 0}; front = {a: 0}
        for _ in range(depth):
            nf = {}
            for x, dx in front.items():
                mx = s.get(x)
                if mx is None: continue
                for y, c in mx.items():
                    n = dx + c
                    if n < dist.get(y, INF): dist[y] = n; nf[y] = n
            front = nf
            if not front: break
        return min(best, dist.get(b, INF))
    def dists(self, a, depth=4):
        s = self.s; dist = {a: 0}; front = {a: 0}
        for _ in range(depth):
            nf = {}
            for x, dx in front.items():
                mx = s.get(x)
                if mx is None: continue
                for y, c in mx.items():
                    n = dx + c
                    if n < dist.get(y, INF): dist[y] = n; nf[y] = n
            front = nf
            if not front: break
        return dist
    def add(self, a, b, c):
        if a == b: return c >= 0
        if c == INF: return True
        if self.ub(b, a) + c < 0: return False
        if c < self.ub(a, b): self.set(a, b, c)
        return True
    def saturate(self):
        """consequences of the sums kept for up/down counter pairs: i + l = g, l >= lo  =>  i <= g - lo"""
        ks = self.keys()
        for g in [g for g in ks if g[:2] == "g|"]:
            i, l = g.split("|")[1:]
            for i, l in ((i, l), (l, i)):
                lo = self.lo(l)
                if lo == -INF: continue
                for k in ks | {Z}:
                    if k != g and k != i:
                        c = self.ub(g, k)
                        if c < INF and c - lo < self.ub(i, k): self.set(i, k, c - lo)
    def lo(self, k): return -self.ub(Z, k)
    def hi(self, k): return self.ub(k, Z)
    def ghosts(self, k):
        return [g for g in self.keys() if g[:2] == "g|" and k in g.split("|")[1:]]
    def forget(self, k):
        ks = self.keys()
        if k[:2] != "g|":
            for g in ks:
                if g[:2] == "g|" and k in g.split("|")[1:]: self.forget(g)
        if k not in ks: return
        ins = [(a, m[k]) for a, m in self.s.items() if k in m]
        outs = list(self.s.get(k, {}).items())
        self.s.pop(k, None)
        for a, _ in ins:
            m = self.s[a]; del m[k]
            if not m: del self.s[a]
        self.k = None
        for a, c1 in ins:
            if not outs: break
            D = self.dists(a)
            for b, c2 in outs:
                if a != b and c1 + c2 < D.get(b, INF): self.set(a, b, c1 + c2)
    def keys(self):
        if self.k is None:
            s = set(self.s)
            for m in self.s.values(): s.update(m)
            s.discard(Z); self.k = frozenset(s)
        return self.k
    def assign(self, k, v):
        """k := v, v = (key|None, lo, hi)"""
        k2, lo, hi = v
        if k2 == k:
            gs = self.ghosts(k) + [k] if k[:2] != "g|" else [k]
            for (a, b), c in list(self.items()):
                if a in gs or b in gs:
                    if a in gs: c = c + hi
                    if b in gs: c = c - lo
                    if c < INF: self.s[a][b] = c
                    else:
                        del self.s[a][b]
                        if not self.s[a]: del self.s[a]
                        self.k = None
            return
        self.forget(k)
        b = k2 if k2 is not None else Z
        if hi < INF: self.set(k, b, hi)
        if lo > -INF: self.set(b, k, -lo)

def join(a, b):
    if a is None: return b
    if b is None: return a
    if a is b or a.s == b.s: return a
    r = {}
    for x in set(a.s) | set(b.s):
        ma, mb = a.s.get(x), b.s.get(x)
        if ma is None or mb is None:
            # one side has no direct bounds from x: only derivable ones could match, and it has none at all
            continue
        Da = Db = None; m = {}
        for y in set(ma) | set(mb):
            if ma.get(y) == mb.get(y) and y in ma: 
                m[y] = ma[y]; continue
            if Da is None: Da, Db = a.dists(x), b.dists(x)
            c = max(Da.get(y, INF), Db.get(y, INF))
            if c < INF: m[y] = c
        if m: r[x] = m
    return Zone(r)

def widen(old, new, thresholds):
    r = {}
    for x, mo in old.s.items():
        mn = new.s.get(x)
        if mn is None: continue
        D = None; m = {}
        for y, c in mo.items():
            if mn.get(y, INF) <= c: m[y] = c; continue
            if D is None: D = new.dists(x)
            n = D.get(y, INF)
            if n <= c: m[y] = c
            else:
                for t in thresholds:
                    if n <= t: m[y] = t; break
        if m: r[x] = m
    return Zone(r)

def leq(a, b):
    """a included in b"""
    for x, mb in b.s.items():
        ma = a.s.get(x)
        if ma is None: return False
        D = None
        for y, c in mb.items():
            if ma.get(y, INF) <= c: continue
            if D is None: D = a.dists(x)
            if D.get(y, INF) > c: return False
    return True

class Ivl:
    INLINE_NODES = 120
    INLINE_DEPTH = 4
    MAXPART = 12
    def __init__(self, F):
        self.F = F; self.record = True; self.alias = {}; self.stack = []; self.tmp = 0; self._mods = None; self._size = {}
        self.fnname = None; self._thr = [0]
    # ---- hooks
    def on_idx(self, e, st): pass
    def on_deref(self, e, st): pass           # deref / arrow base evaluated in st
    def on_store(self, e, st): pass
    def on_call(self, e, st): return None     # -> list of (state, value) or None
    def inlinable(self, e, f): return True
    def thresholds(self): return self._thr
    # ---- paths
    def path(self, e):
        e = strip(e); k = e["k"]
        if k == "var":
            return self.alias.get(e["id"], "v%s" % e["id"])
        if k == "this": return self.alias.get("this", "this")
        if k == "mem":
            b = self.path(e["b"])
            if b is None: return None
            if e["n"] == "ast" and not e["a"]: return b
            if e["a"]:
                return (b[1:] + "." + e["n"]) if b.startswith("&") else b + "->" + e["n"]
            if b.startswith("*"): return b[1:] + "->" + e["n"]
            return b + "." + e["n"]
        if k == "deref":
            b = self.path(e["e"])
            if b is None: return None
            return b[1:] if b.startswith("&") else "*" + b
        if k == "addr":
            b = self.path(e["e"])
            if b is None: return None
            return b[1:] if b.startswith("*") else "&" + b
        if k == "idx":
            b = self.path(e["b"]); i = strip(e["i"])
            if b is None or not ("cv" in e["i"] or "cv" in i): return None
            return "%s[%s]" % (b, e["i"].get("cv", i.get("cv")))
        if self.transparent(e): return self.path(e["a"][0])
        return None
    def transparent(self, e):
        """wrapper operators that only expose the wrapped pointer"""
        if e["k"] != "call" or len(e.get("a") or []) != 1: return False
        n = e.get("n") or ""
        return n.endswith("::operator->") or bool(e.get("conv")) and self.F.type(e.get("t", -1))["k"] in ("ptr", "bool", "record") 
    def islocal(self, k): return k.startswith("v") and "->" not in k and not k.startswith("*")
    def field(self, k):
        for sep in ("->", "."):
            pass
        import re
        m = re.split(r"->|\.", k)
        return m[-1] if len(m) > 1 else ("*" if k.startswith("*") else None)
    def typerange(self, t):
        t = self.F.type(t)
        if t["k"] == "bool": return (0, 1)
        if t["k"] == "enum": return (0, self.enummax(t))
        if t["k"] == "int" and t.get("u"): return (0, INF)
        if t["k"] == "int": return (-INF, INF)
        return (-INF, INF)
    def enummax(self, t):
        if not hasattr(self, "_em"): self._em = {}
        n = t["c"].replace("enum ", "").split("::")[-1]
        if n not in self._em:
            import re
            e = self.F.enums.get(n)
            vs = [x[1] for x in e["e"] if 0 <= x[1] < 0x10000 and not re.search(r"(^|_)Num[A-Z_]|_Num$|_COUNT$", x[0])] if e else []
            # flag enumerations combine
            self._em[n] = max(vs) if vs and sorted(set(vs)) == list(range(min(vs), max(vs) + 1)) else INF
        return self._em[n]
    def fresh(self, st, t=None, lo=None, hi=None):
        a, b = self.typerange(t) if t is not None else (-INF, INF)
        return (None, a if lo is None else lo, b if hi is None else hi)
    # ---- summaries
    def mods(self, f):
        if self._mods is None: self._compute_mods()
        return self._mods.get(f["id"], frozenset(["*any*"]))
    def _compute_mods(self):
        direct = {}; callees = {}
        for f in self.F.functions:
            if not f.get("b"): continue
            D = set(); C = set()
            for x in gx.walk(f["b"]):
                tgt = None
                if x["k"] == "asg": tgt = x["x"]
                elif x["k"] == "un" and x["o"] in ("++", "--"): tgt = x["e"]
                if tgt is not None:
                    tgt = strip(tgt)
                    if tgt["k"] == "mem":
                        D.add(tgt["n"])
                        t = self.F.type(tgt.get("t", -1))
                    elif tgt["k"] in ("deref", "idx"): D.add("*")
                    elif tgt["k"] == "call": D.add("*")
                    t = self.F.type(tgt.get("t", -1))
                    if t["k"] == "record" and tgt["k"] != "var":
                        for n in self.recfields(t): D.add(n)
                    if tgt["k"] == "var" and tgt.get("s") not in ("l", "p"): D.add("g%s" % tgt["id"])
                    if tgt["k"] == "var" and t.get("ref"): D.add("*")
                if x["k"] == "call":
                    if x.get("id") is not None: C.add(x["id"])
                    n = x.get("n") or ""
                    if n in ("memset", "memcpy", "memmove", "mem_copy", "mem_set", "mem_move"): D.add("*mem*")
            direct[f["id"]] = D; callees[f["id"]] = C
        mods = {k: set(v) for k, v in direct.items()}
        ch = True
        while ch:
            ch = False
            for k, cs in callees.items():
                for c in cs:
                    if c in mods and not mods[c] <= mods[k]: mods[k] |= mods[c]; ch = True
        self._mods = {k: frozenset(v) for k, v in mods.items()}
    def recfields(self, t):
        r = self.F.records.get(t["s"].replace("struct ", "").split("::")[-1]) or self.F.records.get(t["c"].split("::")[-1])
        return [f["n"] for f in r["f"]] if r else []
    def clobber(self, st, mods, escaped=()):
        for k in list(st.keys()):
            if k in escaped or any(k.startswith(x + ".") for x in escaped): st.forget(k); continue
            if self.islocal(k):
                continue
            f = self.field(k)
            if "*any*" in mods or (f is not None and f in mods): st.forget(k)
            elif k.startswith("*") and "*" in mods: st.forget(k)
    # ---- expression evaluation on a single zone: returns list of (zone, value)
    def ev(self, e, st):
        if e is None: return [(st, (None, -INF, INF))]
        k = e["k"]
        if "cv" in e and k != "call" and k != "var": return [(st, (None, e["cv"], e["cv"]))]
        if k == "null": return [(st, (None, 0, 0))]
        m = getattr(self, "e_" + k, None)
        if m: return m(e, st)
        cur = [st]
        for key in ("b", "e", "i", "x", "y"):
            ch = e.get(key)
            if isinstance(ch, dict) and "k" in ch: cur = [s for c in cur for s, _ in self.ev(ch, c)]
        for ch in (e.get("a") if isinstance(e.get("a"), list) else []):
            if isinstance(ch, dict): cur = [s for c in cur for s, _ in self.ev(ch, c)]
        return [(s, self.fresh(s, e.get("t"))) for s in self.collapse(cur)]
    def collapse(self, zs):
        """merge states, keep partitions distinguished by boolean locals"""
        zs = [z for z in zs if z is not None]
        if len(zs) <= 1: return zs
        P = {}
        for z in zs:
            key = tuple(sorted((k, z.get(k, Z)) for k in self.bools if z.get(k, Z) < INF and z.get(Z, k) == -z.get(k, Z)))
            P[key] = join(P.get(key), z)
        if len(P) > self.MAXPART:
            r = None
            for z in P.values(): r = join(r, z)
            return [r]
        return list(P.values())
    def load(self, e, st):
        p = self.path(e)
        if p is None: return self.fresh(st, e.get("t"))
        lo, hi = self.typerange(e.get("t"))
        if self.F.type(e.get("t", -1))["k"] not in ("int", "bool", "enum", "ptr", "char"): return self.fresh(st)
        if lo > -INF and st.lo(p) < lo: st.add(Z, p, -lo)
        if hi < INF and st.hi(p) > hi: st.add(p, Z, hi)
        return (p, 0, 0)
    def e_var(self, e, st):
        if "cv" in e: return [(st, (None, e["cv"], e["cv"]))]
        return [(st, self.load(e, st))]
    def e_mem(self, e, st):
        out = []
        for s, _ in self.ev(e["b"], st):
            if e["a"]: self.on_deref(e, s)
            out.append((s, self.load(e, s)))
        return out
    def e_deref(self, e, st):
        out = []
        for s, _ in self.ev(e["e"], st):
            self.on_deref(e, s); out.append((s, self.load(e, s)))
        return out
    def e_idx(self, e, st):
        out = []
        for s, _ in self.ev(e["b"], st):
            for s2, iv in self.ev(e["i"], s):
                self.idxval = iv
                self.on_idx(e, s2)
                out.append((s2, self.load(e, s2)))
        return out
    def e_addr(self, e, st):
        x = strip(e["e"])
        if x["k"] == "idx":        # &a[i]: no access
            r = [s2 for s, _ in self.ev(x["b"], st) for s2, _ in self.ev(x["i"], s)]
            return [(s, self.fresh(s)) for s in self.collapse(r)]
        return [(s, self.fresh(s)) for s, _ in self.ev(e["e"], st)] if x["k"] != "var" else [(st, self.fresh(st))]
    def e_cast(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            lo, hi = self.typerange(e.get("t"))
            ts = self.F.type(strip(e["e"]).get("t", -1)); td = self.F.type(e.get("t", -1))
            if td["k"] == "bool" and ts["k"] != "bool":
                v = (None, 0, 1) if not self.vlo(s, v) > 0 else (None, 1, 1)
            elif td["k"] in ("int", "enum") and ts["k"] in ("int", "enum", "bool", "char") and td.get("size", 8) >= ts.get("size", 8): pass
            elif td["k"] in ("int", "enum") and ts["k"] in ("int", "enum"):
                sz = td.get("size") or 8
                rlo, rhi = (0, 2 ** (8 * sz) - 1) if td.get("u") else (-2 ** (8 * sz - 1), 2 ** (8 * sz - 1) - 1)
                if sz < 4 and not (self.vlo(s, v) >= rlo and self.vhi(s, v) <= rhi): v = (None, rlo, rhi)
            out.append((s, v))
        return out
    e_icast = e_cast
    def vlo(self, st, v): return v[1] + (st.lo(v[0]) if v[0] else 0)
    def vhi(self, st, v): return v[2] + (st.hi(v[0]) if v[0] else 0)
    def diff_ub(self, st, a, b):
        """upper bound of a - b"""
        return st.ub(a[0] or Z, b[0] or Z) + a[2] - b[1]
    def e_bin(self, e, st):
        o = e["o"]
        if o in ("&&", "||", "==", "!=", "<", "<=", ">", ">="):
            T, Fl = self.cond(e, [st])
            return [(s, (None, 1, 1)) for s in T] + [(s, (None, 0, 0)) for s in Fl]
        if o == ",":
            return [(s2, v) for s, _ in self.ev(e["x"], st) for s2, v in self.ev(e["y"], s)]
        out = []
        for s, a in self.ev(e["x"], st):
            for s2, b in self.ev(e["y"], s):
                out.append((s2, self.arith(o, a, b, s2, e)))
        return out
    def arith(self, o, a, b, st, e):
        alo, ahi, blo, bhi = self.vlo(st, a), self.vhi(st, a), self.vlo(st, b), self.vhi(st, b)
        if o == "+":
            if blo == bhi: return (a[0], a[1] + blo, a[2] + blo)
            if alo == ahi: return (b[0], b[1] + alo, b[2] + alo)
            if a[0] and not b[0]: return (a[0], a[1] + b[1], a[2] + b[2])
            return (a[0], a[1] + blo, a[2] + bhi) if a[0] else (None, alo + blo, ahi + bhi)
        if o == "-":
            if blo == bhi: return (a[0], a[1] - blo, a[2] - blo)
            hi = self.diff_ub(st, a, b); lo = -self.diff_ub(st, b, a)
            if lo > -INF and hi < INF: return (None, lo, hi)
            if a[0] and blo > -INF: return (a[0], a[1] - bhi, a[2] - blo)
            return (None, max(lo, alo - bhi), min(hi, ahi - blo))
        if o == "*" and -INF < alo and ahi < INF and -INF < blo and bhi < INF:
            ps = [alo * blo, alo * bhi, ahi * blo, ahi * bhi]; return (None, min(ps), max(ps))
        if o == "*": return (None, 0 if alo >= 0 and blo >= 0 else -INF, INF)
        if o == "&":
            c = bhi if blo == bhi and blo >= 0 else ahi if alo == ahi and alo >= 0 else None
            if c is not None: return (None, 0, c)
            if alo >= 0 and blo >= 0: return (None, 0, min(ahi, bhi))
        if o == "%" and blo >= 0 and alo >= 0: return (None, 0, min(bhi - 1, ahi))
        if o == "%" and blo >= 0: return (None, -(bhi - 1), bhi - 1)
        if o == "/" and blo > 0 and alo >= 0: return (None, 0 if alo == -INF else alo // bhi if bhi < INF else 0, ahi // blo if ahi < INF else INF)
        if o == ">>" and alo >= 0 and blo >= 0: return (None, 0, ahi if ahi == INF else ahi >> int(blo))
        if o in ("|", "^") and alo >= 0 and blo >= 0 and ahi < INF and bhi < INF:
            m = 1
            while m <= max(ahi, bhi): m *= 2
            return (None, 0, m - 1)
        return self.fresh(st, e.get("t"))
    def e_un(self, e, st):
        o = e["o"]
        if o == "!":
            T, Fl = self.cond(e, [st])
            return [(s, (None, 1, 1)) for s in T] + [(s, (None, 0, 0)) for s in Fl]
        out = []
        for s, v in self.ev(e["e"], st):
            if o in ("++", "--"):
                s = s.clone(); d = 1 if o == "++" else -1
                old = v
                nv = (v[0], v[1] + d, v[2] + d)
                self.on_store(e, s)
                p = self.path(e["e"])
                if e.get("post"):
                    if p is not None and v[0] == p:
                        s.assign(p, (p, d, d)); self.storehit(p, s)
                        out.append((s, (p, -d, -d)))
                    else:
                        self.store(e["e"], nv, s); out.append((s, old))
                else:
                    self.store(e["e"], nv, s); out.append((s, (p, 0, 0) if p else nv))
            elif o == "-":
                out.append((s, (None, -self.vhi(s, v), -self.vlo(s, v))))
            elif o == "+": out.append((s, v))
            else: out.append((s, self.fresh(s, e.get("t"))))
        return out
    def storehit(self, p, st):
        """other keys that may alias or depend on p"""
        for k in list(st.keys()):
            if k == p: continue
            if k.startswith(p + "->") or k.startswith("*" + p) or (k.startswith(p + ".") and False) or k.startswith(p + "["): st.forget(k)
            elif not self.islocal(p) and not self.islocal(k):
                f, g = self.field(p), self.field(k)
                if f == g and f is not None and self.root(p) != self.root(k): st.forget(k)
    def root(self, k): 
        import re
        return re.split(r"->|\.", k)[0]
    def store(self, lhs, v, st):
        p = self.path(lhs)
        x = strip(lhs)
        if p is None:
            if x["k"] == "mem":
                for k in list(st.keys()):
                    if self.field(k) == x["n"]: st.forget(k)
            elif x["k"] in ("deref", "idx"):
                for k in list(st.keys()):
                    if k.startswith("*"): st.forget(k)
            return
        t = self.F.type(x.get("t", -1))
        if t["k"] in ("int", "bool", "enum", "ptr", "char"): st.assign(p, v)
        else: st.forget(p)
        if t["k"] == "record":
            for k in list(st.keys()):
                if k.startswith(p + ".") or k.startswith(p + "->"): st.forget(k)
        if v[0] is not None and p in str(v[0]) and v[0] != p: st.forget(p)
        self.storehit(p, st)
        if p.startswith("*"):
            b = p[1:]
            for k in list(st.keys()):
                if k.startswith("*") and k != p: st.forget(k)
    def e_asg(self, e, st):
        out = []
        x = strip(e["x"])
        cur = [st]
        # evaluate the sub-expressions of the target (subscripts, dereferences)
        if x["k"] == "idx":
            cur = []
            for s, _ in self.ev(x["b"], st):
                for s2, iv in self.ev(x["i"], s): self.idxval = iv; self.on_idx(x, s2); cur.append(s2)
        elif x["k"] == "mem": 
            cur = [s for s, _ in self.ev(x["b"], st)]
            if x["a"]:
                for s in cur: self.on_deref(x, s)
        elif x["k"] == "deref":
            cur = [s for s, _ in self.ev(x["e"], st)]
            for s in cur: self.on_deref(x, s)
        elif x["k"] != "var": cur = [s for s, _ in self.ev(x, st)]
        for s in cur:
            for s2, v in self.ev(e["y"], s):
                s2 = s2.clone()
                self.on_store(e, s2)
                if e["o"] != "=":
                    old = self.load(x, s2)
                    v = self.arith(e["o"][:-1], old, v, s2, e)
                self.store(x, v, s2)
                p = self.path(x)
                out.append((s2, (p, 0, 0) if p and self.F.type(x.get("t", -1))["k"] in ("int", "bool", "enum", "ptr", "char") else v))
        return out
    def e_cond(self, e, st):
        T, Fl = self.cond(e["c"], [st])
        return [r for s in T for r in self.ev(e["x"], s)] + [r for s in Fl for r in self.ev(e["y"], s)]
    def e_lambda(self, e, st): return [(st, self.fresh(st))]
    def e_sizeof(self, e, st): return [(st, self.fresh(st, lo=0))]
    def e_stmtexpr(self, e, st):
        o = self.ex(e["body"], [st]); return [(s, self.fresh(s)) for s in o["norm"]]
    # ---- calls
    def noreturn(self, e):
        return e.get("nr") or (e.get("n") or "").startswith(("__builtin_trap", "__builtin_unreachable")) or e.get("n") in ("process_exit", "exit", "abort")
    def bodysize(self, f):
        if f["id"] not in self._size: self._size[f["id"]] = sum(1 for _ in gx.walk(f["b"])) if f.get("b") else 10 ** 9
        return self._size[f["id"]]
    def e_call(self, e, st):
        if self.noreturn(e): return []
        if self.transparent(e): return [(s, self.load(e, s)) for s, _ in self.ev(e["a"][0], st)]
        args = e["a"]; cur = [(st, [])]
        if e.get("n") is None and isinstance(e.get("cx"), dict): cur = [(s, []) for s, _ in self.ev(e["cx"], st)]
        for a in args:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(a, s): nxt.append((s2, vs + [v]))
            cur = nxt
        out = []
        f = self.F.byid.get(e.get("id"))
        for s, vs in cur:
            self.argvals = vs
            r = self.on_call(e, s)
            if r is not None: out += r; continue
            if f is not None and f.get("b") and self.canline(e, f):
                out += self.inline(e, f, s, vs); continue
            s = s.clone()
            esc = set()
            for i, a in enumerate(args):
                x = strip(a)
                if x["k"] == "addr":
                    p = self.path(x["e"])
                    if p: esc.add(p)
                elif f is not None and i < len(f["ps"]) and self.F.type(f["ps"][i]["t"]).get("ref") and "const" not in self.F.type(f["ps"][i]["t"])["s"].split("&")[0]:
                    p = self.path(x)
                    if p: esc.add(p)
                elif f is None and self.F.type(x.get("t", -1))["k"] in ("arr",):
                    p = self.path(x)
                    if p: esc.add(p)
            if f is not None and f.get("outer") is not None:       # lambda: captured locals may change
                for x in gx.walk(f["b"]):
                    t = x.get("x") if x["k"] == "asg" else x.get("e") if x["k"] == "un" and x["o"] in ("++", "--") else None
                    if t is not None:
                        p = self.path(t)
                        if p: esc.add(p)
            mods = self.mods(f) if f is not None else self.external_mods(e)
            self.clobber(s, mods, esc)
            out.append((s, self.fresh(s, e.get("t"))))
        return out
    def external_mods(self, e):
        return frozenset(["*any*"]) if e.get("n") is None else frozenset(["*"])
    def canline(self, e, f):
        return len(self.stack) < self.INLINE_DEPTH and f["id"] not in self.stack and self.bodysize(f) <= self.INLINE_NODES and self.inlinable(e, f) and len(e["a"]) >= len(f["ps"])
    def inline(self, e, f, st, vs):
        args = e["a"]; off = 1 if e.get("meth") else 0
        save = dict(self.alias); st = st.clone()
        binds = {}
        if off: 
            p = self.path(args[0]); binds["this"] = ("&" + p if p and not e.get("arrow") else p) or "anon%d" % id(e)
        for i, p in enumerate(f["ps"]):
            if i + off >= len(args): break
            a = args[i + off]; t = self.F.type(p["t"])
            ap = self.path(a)
            if t.get("ref") and ap: binds[p["id"]] = ap
            elif t["k"] in ("ptr",) and ap and not self.assigned(f, p["id"]): binds[p["id"]] = ap
            elif t["k"] == "record" and ap and not self.assigned(f, p["id"]): binds[p["id"]] = ap
            else:
                st.forget("v%s" % p["id"])
                st.assign("v%s" % p["id"], vs[i + off] if i + off < len(vs) else self.fresh(st, p["t"]))
        self.alias.update(binds); self.stack.append(f["id"])
        try:
            o = self.ex(f["b"], [st])
        finally:
            self.stack.pop(); self.alias = save
        out = []
        rt = self.F.type(f["t"])
        for s in o["norm"]: out.append((s, self.fresh(s)))
        for s, v in o["ret"]: out.append((s, v))
        # drop callee locals, but resolve a returned callee-local first
        loc = self.locals_of(f)
        res = []
        for s, v in out:
            s = s.clone()
            if v[0] in loc or (v[0] and any(v[0].startswith(l + x) for l in loc for x in ("->", ".", "["))):
                # rebase on another key with exact difference, else interval
                nk = None
                for k in s.keys():
                    if k not in loc and s.ub(v[0], k) == -s.ub(k, v[0]): nk = (k, s.ub(v[0], k)); break
                if nk: v = (nk[0], v[1] + nk[1], v[2] + nk[1])
                else: v = (None, self.vlo(s, v), self.vhi(s, v))
            for k in list(s.keys()):
                if k in loc or self.root(k).lstrip("*&") in loc: s.forget(k)
            res.append((s, v))
        # merge results with the same value
        groups = {}
        for s, v in res: groups.setdefault(v, []).append(s)
        return [(s, v) for v, ss in groups.items() for s in self.collapse(ss)]
    def assigned(self, f, vid):
        key = (f["id"], vid)
        if not hasattr(self, "_asg"): self._asg = {}
        if key not in self._asg:
            r = False
            for x in gx.walk(f["b"]):
                t = strip(x["x"]) if x["k"] == "asg" else strip(x["e"]) if x["k"] == "un" and x["o"] in ("++", "--") else strip(x["e"]) if x["k"] == "addr" else None
                if t is not None and t["k"] == "var" and t["id"] == vid: r = True; break
            self._asg[key] = r
        return self._asg[key]
    def locals_of(self, f):
        if not hasattr(self, "_loc"): self._loc = {}
        if f["id"] not in self._loc:
            L = set("v%s" % p["id"] for p in f["ps"])
            for x in gx.walk(f["b"]):
                if x["k"] == "decl":
                    for v in x["v"]: L.add("v%s" % v["id"])
            self._loc[f["id"]] = L
        return self._loc[f["id"]]
    # ---- conditions
    def cond(self, e, S):
        """-> (true states, false states)"""
        if not S: return [], []
        k = e["k"]
        if "cv" in e and k != "call": return (S, []) if e["cv"] else ([], S)
        if k == "null": return [], S
        if k == "bin" and e["o"] in ("&&", "||"):
            T, Fl = self.cond(e["x"], S)
            if e["o"] == "&&":
                T2, F2 = self.cond(e["y"], T); return T2, self.collapse(Fl + F2)
            T2, F2 = self.cond(e["y"], Fl); return self.collapse(T + T2), F2
        if k == "un" and e["o"] == "!":
            T, Fl = self.cond(e["e"], S); return Fl, T
        if k in ("icast", "cast") and self.F.type(e.get("t", -1))["k"] in ("bool", "int"):
            return self.cond(e["e"], S)
        T, Fl = [], []
        if k == "bin" and e["o"] in ("==", "!=", "<", "<=", ">", ">="):
            for st in S:
                for s, a in self.ev(e["x"], st):
                    for s2, b in self.ev(e["y"], s):
                        t = self.refine(s2, e["o"], a, b); f = self.refine(s2, {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[e["o"]], a, b)
                        if t is not None: T.append(t)
                        if f is not None: Fl.append(f)
            return self.collapse(T), self.collapse(Fl)
        for st in S:
            for s, v in self.ev(e, st):
                t = self.refine(s, "!=", v, (None, 0, 0)); f = self.refine(s, "==", v, (None, 0, 0))
                if t is not None: T.append(t)
                if f is not None: Fl.append(f)
        return self.collapse(T), self.collapse(Fl)
    def refine(self, st, o, a, b):
        if o in (">", ">="): return self.refine(st, "<" if o == ">" else "<=", b, a)
        st = st.clone()
        ka, kb = a[0] or Z, b[0] or Z
        if o in ("<", "<="):
            s = 1 if o == "<" else 0
            # a + [a1,a2] < b + [b1,b2]  =>  ka - kb <= b2 - a1 - s
            c = b[2] - a[1] - s
            if ka == kb: return st if c >= 0 else None
            return st if st.add(ka, kb, c) else None
        if o == "==":
            if ka == kb: return st if a[1] <= b[2] and b[1] <= a[2] else None
            if not st.add(ka, kb, b[2] - a[1]): return None
            if not st.add(kb, ka, a[2] - b[1]): return None
            return st
        if o == "!=":
            if a[1] != a[2] or b[1] != b[2]: return st
            if ka == kb: return st if a[1] != b[1] else None
            c = b[1] - a[1]                       # ka - kb != c
            if st.ub(ka, kb) == c and -st.ub(kb, ka) == c: return None
            if st.ub(ka, kb) == c: return st if st.add(ka, kb, c - 1) else None
            if -st.ub(kb, ka) == c: return st if st.add(kb, ka, -c - 1) else None
            return st
        return st
    # ---- statements
    def ex(self, n, S):
        o = {"norm": [], "brk": [], "cont": [], "ret": [], "goto": []}
        if n is None or not S: o["norm"] = S; return o
        getattr(self, "s_" + n["k"])(n, S, o)
        o["norm"] = self.collapse(o["norm"])
        return o
    def mg(self, o, r, ks=("brk", "cont", "ret", "goto")):
        for k in ks: o[k] = o[k] + r[k]
    def s_expr(self, n, S, o): o["norm"] = [s for st in S for s, _ in self.ev(n["e"], st)]
    def s_nop(self, n, S, o): o["norm"] = S
    def s_blk(self, n, S, o):
        cur = S; pend = []
        for st in n["b"]:
            if st["k"] == "label":
                hit = [s for s, l in pend if l == st["n"]]; pend = [(s, l) for s, l in pend if l != st["n"]]
                cur = self.collapse(cur + hit)
            r = self.ex(st, cur); self.mg(o, r, ("brk", "cont", "ret")); pend += r["goto"]; cur = r["norm"]
        o["goto"] = o["goto"] + pend; o["norm"] = cur
    def s_label(self, n, S, o): r = self.ex(n["s"], S); self.mg(o, r); o["norm"] = r["norm"]
    s_case = s_label; s_default = s_label
    def s_goto(self, n, S, o): o["goto"] = [(s, n["n"]) for s in S]
    def s_decl(self, n, S, o):
        cur = S
        for v in n["v"]:
            k = "v%s" % v["id"]; t = self.F.type(v["t"])
            if t["k"] == "bool": self.bools.add(k)
            out = []
            for s in cur:
                if t.get("ref") and v.get("i") is not None:
                    p = self.path(v["i"])
                    if p: self.alias[v["id"]] = p; out += [s2 for s2, _ in self.ev(v["i"], s)]; continue
                if v.get("i") is not None and not v.get("static"):
                    for s2, x in self.ev(v["i"], s):
                        s2 = s2.clone(); s2.forget(k)
                        for kk in list(s2.keys()):
                            if self.root(kk).lstrip("*&") == k: s2.forget(kk)
                        if t["k"] in ("int", "bool", "enum", "ptr", "char"): s2.assign(k, x)
                        else: self.copyrec(k, v["i"], s2)
                        out.append(s2)
                else:
                    s2 = s.clone()
                    for kk in list(s2.keys()):
                        if self.root(kk).lstrip("*&") == k: s2.forget(kk)
                    out.append(s2)
            cur = self.collapse(out)
        o["norm"] = cur
    def copyrec(self, k, init, st):
        p = self.path(init)
        if p is None: return
        for kk in list(st.keys()):
            if kk.startswith(p + "."):
                st.assign(k + kk[len(p):], (kk, 0, 0))
    def s_if(self, n, S, o):
        if n.get("init"): S = self.ex(n["init"], S)["norm"]
        if n.get("cv"): S = self.ex(n["cv"], S)["norm"]
        T, Fl = self.cond(n["c"], S)
        r = self.ex(n["x"], T); self.mg(o, r); a = r["norm"]
        if n["y"] is not None:
            r = self.ex(n["y"], Fl); self.mg(o, r); Fl = r["norm"]
        o["norm"] = a + Fl
    def s_ret(self, n, S, o):
        if n["e"] is None: o["ret"] = [(s, (None, -INF, INF)) for s in S]; return
        isb = self.F.type(n["e"].get("t", -1))["k"] == "bool"
        if isb:
            T, Fl = self.cond(n["e"], S)
            o["ret"] = [(s, (None, 1, 1)) for s in T] + [(s, (None, 0, 0)) for s in Fl]; return
        o["ret"] = [(s2, v) for s in S for s2, v in self.ev(n["e"], s)]
    def s_break(self, n, S, o): o["brk"] = list(S)
    def s_cont(self, n, S, o): o["cont"] = list(S)
    def s_unkstmt(self, n, S, o): raise AnalysisBroken("unsupported statement " + n["cls"])
    def pair_sums(self, n, z):
        """introduce i + l for every counter i stepped up and counter l stepped down in the loop, while one of them is constant"""
        up, dn, setk = set(), set(), set()
        for x in gx.walk(n):
            if x["k"] == "asg" and x["o"] == "=" and self.F.type(strip(x["x"]).get("t", -1))["k"] == "int":
                p = self.path(x["x"])
                if p is not None and self.islocal(p): setk.add(p)
            if x["k"] == "un" and x["o"] in ("++", "--"): p, d = self.path(x["e"]), x["o"] == "++"
            elif x["k"] == "asg" and x["o"] in ("+=", "-=") and "cv" in x["y"]: p, d = self.path(x["x"]), x["o"] == "+="
            else: continue
            if p is not None and self.islocal(p): (up if d else dn).add(p)
        for i in up:
            for l in dn:
                g = "g|%s|%s" % (i, l)
                if i == l or g in z.keys(): continue
                for a, b in ((i, l), (l, i)):
                    if z.lo(a) == z.hi(a) and abs(z.lo(a)) < INF:
                        z = z.clone(); c = z.lo(a)
                        z.set(g, b, c); z.set(b, g, -c)
                        break
        # relations among the counters, stated explicitly so that joins keep them
        z = z.clone()
        for x in gx.walk(n.get("c") or {"k": "nop"}):
            if x["k"] == "mem" and self.F.type(x.get("t", -1))["k"] in ("int", "enum") and self.path(x): self.load(x, z)
        cs = [k for k in z.keys() if k in up or k in dn or k in setk or k[:2] == "g|"]
        if cs:
            ks = z.keys()
            for a in cs:
                for b in ks:
                    if a != b:
                        for p in ((a, b), (b, a)):
                            c = z.ub(*p)
                            if c < INF: z.set(p[0], p[1], c)
        return z
    def loop(self, n, S, o, cond, body, step, post=False):
        rec = self.record
        self.record = False
        head = None
        S = [self.pair_sums(n, z) for z in S]
        for z in S: head = join(head, z)
        if head is None: self.record = rec; return
        def once(h, post_first):
            h = h.clone()
            if post or cond is None: T, Fl = [h], []
            else: T, Fl = self.cond(cond, [h])
            r = self.ex(body, T)
            nx = self.collapse(r["norm"] + r["cont"])
            if post:
                T2, F2 = self.cond(cond, nx)
                back = T2; ex = F2
            else: back = nx; ex = Fl
            if step is not None: back = [s for z in back for s, _ in self.ev(step, z)]
            b = None
            for z in back: b = join(b, z)
            return b, ex, r
        it = 0
        while True:
            b, ex, r = once(head, False)
            if b is None or leq(b, head): break
            nh = join(head, b)
            it += 1
            head = nh if it < 2 else widen(head, b, self.thresholds() if it < 7 else [])
            if it > 40: raise AnalysisBroken("no fixpoint in " + str(self.fnname))
        # one narrowing step
        if b is not None:
            h2 = None
            for z in S: h2 = join(h2, z)
            cand = join(h2, b)
            if leq(cand, head):
                b2, _, _ = once(cand, False)
                if b2 is None or leq(b2, cand): head = cand
        self.record = rec
        b, ex, r = once(head, False)
        o["ret"] = o["ret"] + r["ret"]; o["goto"] = o["goto"] + r["goto"]
        o["norm"] = self.collapse(ex + r["brk"])
    def s_while(self, n, S, o): self.loop(n, S, o, n["c"], n["b"], None)
    def s_do(self, n, S, o):
        if "cv" in n["c"] and n["c"]["cv"] == 0:
            r = self.ex(n["b"], S); o["ret"] = r["ret"]; o["goto"] = r["goto"]; o["norm"] = r["norm"] + r["brk"] + r["cont"]; return
        self.loop(n, S, o, n["c"], n["b"], None, post=True)
    def s_for(self, n, S, o):
        if n["i"] is not None: S = self.ex(n["i"], S)["norm"]
        self.loop(n, S, o, n["c"], n["b"], n["s"])
    def s_switch(self, n, S, o):
        from switchutil import flatten
        items, groups, default_at = flatten(n)
        work = {}
        allv = [v for g, _ in groups for v in g]
        for st in S:
            for s, x in self.ev(n["c"], st):
                for g, j in groups:
                    for v in g:
                        t = self.refine(s, "==", x, (None, v, v))
                        if t is not None: work.setdefault(j, []).append(t)
                d = s
                for v in sorted(allv):
                    if d is None: break
                    d = self.refine(d, "!=", x, (None, v, v))
                if d is not None: work.setdefault(default_at, []).append(d)
        norm = []
        for j, SS in work.items():
            SS = self.collapse(SS)
            if j is None: norm = norm + SS; continue
            cur = SS
            for it in items[j:]:
                if it[0] != "S" or not cur: continue
                r = self.ex(it[1], cur)
                norm = norm + r["brk"]; self.mg(o, r, ("cont", "ret", "goto")); cur = r["norm"]
            norm = norm + cur
        o["norm"] = norm
    # ---- entry
    def function(self, f, pre=None):
        self.fnname = f["n"]; self.alias = {}; self.stack = [f["id"]]; self.bools = set(); self.record = True
        thr = {0, -1, 1}
        for x in gx.walk(f["b"]):
            cv = x.get("cv")
            if isinstance(cv, int) and 0 <= cv <= 4096: thr.update((cv, cv - 1, cv + 1, -cv))
            if x["k"] in ("idx",):
                import re
                m = re.search(r"\[(\d+)\]", self.F.type(strip(x["b"]).get("t", -1))["c"])
                if m: c = int(m.group(1)); thr.update((c, c - 1))
        self._thr = sorted(thr)
        st = Zone()
        for p in f["ps"]:
            if self.F.type(p["t"])["k"] == "bool": self.bools.add("v%s" % p["id"])
        if pre: pre(st)
        o = self.ex(f["b"], [st])
        if o["goto"]: raise AnalysisBroken("goto into nested label in %s" % f["n"])
        return o
