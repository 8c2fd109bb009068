"""Difference-bound (zone) abstract interpretation of every function that subscripts a fixed-size array with a variable index: at each
subscript the index is proved to lie in [0, extent) from the conditions that dominate it (loops by widening, small helpers and lambdas inline).
A specifier list's own subscript may be bounded by its entry count, whose every increment must in turn be bounded by the list's capacity."""
import re, gx, ivl
from gx import strip
from ivl import INF, Z

class IV(ivl.Ivl):
    def __init__(self, F):
        super().__init__(F); self.sites = {}
    def extent(self, e):
        t = self.F.type(strip(e["b"]).get("t", -1))
        m = re.search(r"\[(\d+)\]", t["c"]) if t["k"] == "arr" else None
        return int(m.group(1)) if m else None
    def put(self, e, ok, why):
        k = id(e)
        o = self.sites.setdefault(k, dict(node=e, ok={}, why=None))
        o["ok"][self.top] = o["ok"].get(self.top, True) and ok
        if not ok: o["why"] = why
    def on_idx(self, e, st):
        if not self.record: return
        n = self.extent(e)
        if n is None: return
        v = self.idxval
        if any(k[:2] == "g|" for k in st.keys()): st = st.clone(); st.saturate()
        if "cv" in e["i"]: v = (None, e["i"]["cv"], e["i"]["cv"])
        lo, hi = self.vlo(st, v), self.vhi(st, v)
        b = strip(e["b"])
        ok = lo >= 0 and hi <= n - 1
        if not ok and lo >= 0 and b["k"] == "mem" and b["n"] == "ArrSpecs":
            p = self.path(b["b"])
            if p is not None:
                ne = (p[1:] + "." if p.startswith("&") else p + "->") + "NumEntries" if b["a"] else p[1:] + "->NumEntries" if p.startswith("*") else p + ".NumEntries"
                ok = st.ub(v[0] or Z, ne) + v[2] <= -1
        self.put(e, ok, "index in [%s, %s], %s has %d" % (lo, hi, b.get("n"), n))
    def isspecs(self, e):
        x = strip(e)
        if x["k"] != "mem" or x["n"] != "NumEntries": return False
        t = self.F.type(strip(x["b"]).get("t", -1))
        return "AST_Specifiers" in t["c"] or "AST_Specifiers" in t["s"] or "CodeSpecifiers" in t["s"]
    def load(self, e, st):
        r = super().load(e, st)
        x = strip(e)
        if x["k"] == "mem" and r[0]:
            if x["n"] == "NumEntries": st.add(Z, r[0], 0)
            if self.isspecs(e): st.add(r[0], Z, self.cap)
            rg = self.constfields().get((self.recof(x), x["n"]))
            if rg: st.add(Z, r[0], -rg[0]); st.add(r[0], Z, rg[1])
        return r
    def recof(self, x):
        return re.sub(r"\b(const|struct|union)\b|[*&\s]", "", self.F.type(strip(x["b"]).get("t", -1))["c"]).split("::")[-1]
    def constfields(self):
        """fields whose every store in the unit is a constant (aggregate initialisers and zeroing included): name -> (least, greatest)"""
        if getattr(self, "_cf", None) is None:
            R, bad = {}, set()
            def put(n, v):
                if v is None: bad.add(n)
                else: lo, hi = R.get(n, (0, 0)); R[n] = (min(lo, v), max(hi, v))
            for f in self.F.functions:
                for x in gx.walk(f.get("b") or {"k": "nop"}):
                    if x["k"] == "asg":
                        y = strip(x["x"])
                        if y["k"] == "mem": put((self.recof(y), y["n"]), strip(x["y"]).get("cv", x["y"].get("cv")) if x["o"] == "=" else None)
                    elif x["k"] == "un" and x["o"] in ("++", "--"):
                        y = strip(x["e"])
                        if y["k"] == "mem": bad.add((self.recof(y), y["n"]))
                    elif x["k"] == "addr":
                        y = strip(x["e"])
                        if y["k"] == "mem": bad.add((self.recof(y), y["n"]))
                    elif x["k"] == "init" and x.get("r"):
                        for n, v in zip(x.get("fn") or [], x["a"]):
                            if n: put((x["r"].split("::")[-1], n), strip(v).get("cv", v.get("cv")))
            ints = set((r["n"].split("::")[-1], fl["n"]) for r in self.F.records.values() for fl in r["f"] if self.F.type(fl["t"])["k"] in ("int", "enum", "bool"))
            self._cf = {n: r for n, r in R.items() if n in ints and n not in bad and n[0] != "Context" and not n[0].startswith("Opts_")}
        return self._cf
    def on_store(self, e, st):
        tgt = e["x"] if e["k"] == "asg" else e["e"]
        x = strip(tgt)
        if x["k"] == "mem" and x["n"] == "NumEntries" and self.record:
            r = self.load(x, st)
            if e["k"] == "un" and e["o"] == "--":
                self.put(e, self.vlo(st, r) >= 1, "entry count may be decremented below zero")
            if e["k"] == "asg" and e["o"] in ("=", "-=") and not strip(e["y"])["k"] == "mem":
                v = self.ev(e["y"], st.clone())
                lo = min(self.vlo(s, w) for s, w in v)
                self.put(e, (lo >= 0) if e["o"] == "=" else self.vlo(st, r) >= max(self.vhi(s, w) for s, w in v), "entry count may become negative")
            if self.isspecs(tgt) and e["k"] == "un" and e["o"] == "++":
                self.put(e, self.vhi(st, r) <= self.cap - 1, "entry count up to %s is incremented past the capacity %d" % (self.vhi(st, r), self.cap))

def relevant(F, f):
    for x in gx.walk(f["b"]):
        if x["k"] == "idx" and F.type(strip(x["b"]).get("t", -1))["k"] == "arr":
            i = x["i"]
            if "cv" not in i and "cv" not in strip(i): return True
        if x["k"] in ("asg", "un"):
            y = strip(x.get("x") or x.get("e") or {"k": ""})
            if y["k"] == "mem" and y.get("n") == "NumEntries": return True
    return False

def scalar_index(F, f):
    """subscripts depend on a scalar parameter: judged at the callers within the library where there are any"""
    ps = {p["id"] for p in f["ps"] if F.type(p["t"])["k"] in ("int", "enum")}
    return any(x["k"] == "idx" and F.type(strip(x["b"]).get("t", -1))["k"] == "arr" and any(y["k"] == "var" and y.get("id") in ps for y in gx.walk(x["i"]))
               for x in gx.walk(f["b"]))

def check(rep):
    total = 0
    for cfg in (["base", "cpp"] if rep.tier == "quick" else ["base", "cpp", "nofatal", "clib", "linux", "unreal"]):
        F = gx.extract(cfg)
        iv = IV(F)
        cap = re.search(r"\[(\d+)\]", next(F.type(f["t"])["c"] for f in F.records["AST_Specifiers"]["f"] if f["n"] == "ArrSpecs"))
        iv.cap = int(cap.group(1))
        rel = {f["id"]: f for f in F.functions if f.get("b") and relevant(F, f)}
        # callers of internal helpers are analysed too, so that the helper is judged where it is used
        helpers = {i for i, f in rel.items() if f.get("outer") is not None or f.get("st") or scalar_index(F, f)}
        todo = dict(rel); callers = {}
        for f in F.functions:
            if not f.get("b"): continue
            for c in gx.calls(f["b"]):
                if c.get("id") in helpers and c["id"] != f["id"]:
                    callers.setdefault(c["id"], set()).add(f["id"]); todo[f["id"]] = f
        def one(f):
            iv.top = f["id"]; iv.sites = {}
            iv.function(f)
            return {k: (o["ok"], o["why"]) for k, o in iv.sites.items()}
        iv.constfields(); iv.mods({"id": None})
        nodes = {id(x): x for f in F.functions if f.get("b") for x in gx.walk(f["b"])}
        sites = {}
        for r in gx.pmap(one, sorted(todo.values(), key=lambda f: -iv.bodysize(f))):
            for k, (ok, why) in r.items():
                if k not in nodes: continue
                o = sites.setdefault(k, dict(node=nodes[k], ok={}, why=None)); o["ok"].update(ok); o["why"] = why or o["why"]
        iv.sites = sites
        owner = {}
        for f in rel.values():
            for x in gx.walk(f["b"]): owner[id(x)] = f
        nest = {}
        for f in rel.values():
            if f.get("outer") is not None:
                for x in gx.walk(f["b"]): nest[id(x)] = f
        owner.update(nest)
        for k, o in iv.sites.items():
            f = owner.get(k)
            if f is None: continue
            e = o["node"]
            if not F.at(e.get("l") or f["l"]).startswith("base/"): continue     # the generators' own programs are not the library
            total += 1
            bad = [t for t, ok in o["ok"].items() if not ok]
            if f["id"] in helpers and bad == [f["id"]] and callers.get(f["id"]) and all(o["ok"].get(c) for c in callers[f["id"]]): bad = []
            if not bad: rep.ok(); continue
            nm = (strip(e["b"]).get("n") or "?") if e["k"] == "idx" else "NumEntries"
            rep.bad("%s:%s" % (f["n"].replace("::lambda", ""), nm), F.at(e.get("l") or f["l"]), "array-bounds", "%s: %s" % (f["n"], o["why"]))
            rep.cov.setdefault("failing", []).append("%s:%s" % (f["n"], nm))
    rep.need("subscripts", total, 60)
    rep.assumptions += ["values of an enumeration type are its enumerators (P04 decides the tables per enumerator)"]
