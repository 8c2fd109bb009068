"""Interning as a type discipline: a StrCached is only ever made from another StrCached, from the string cache, or from a literal / nothing.  Every place where
a text becomes a StrCached (store into a node's name or content, initialiser, argument, return value) is an obligation; a plain Str is followed through the
definitions of locals, the returns of helpers and the arguments of every caller.  The string cache itself must return a copy made in the context's
string arenas or an entry of its table, and the macro table only receives entries whose name went through the cache."""
import glob, os, re
import gx, absint, p28
from absint import Rec, C0, State, is_addr
LEVEL = "exhaustive"
EXEMPT = {"cache_str"}

class Prov:
    def __init__(self, F):
        self.F = F; self.calls = {}; self.asg = {}; self.memo = {}; self.obl = []
        for f in F.byid.values():
            if f.get("b"): self.scan(f["b"], f)
    def ty(self, n): return self.F.type(n["t"])["s"].replace("gen::", "").replace("const ", "").strip(" &") if n.get("t") is not None else ""
    def scan(self, n, f):
        """index call sites, the definitions of locals and the obligations"""
        if type(n) is list:
            for x in n: self.scan(x, f)
            return
        if type(n) is not dict: return
        k = n.get("k"); ex = f["n"] in EXEMPT or f["n"].startswith(("hashtable_", "array_"))
        if k == "call":
            if n.get("n") == "Str::operator=" and len(n["a"]) == 2: self.assign(n["a"][0], n["a"][1], f, n, ex)
            elif n.get("id") in self.F.byid:
                g = self.F.byid[n["id"]]; a = n["a"][1:] if n.get("meth") and not g.get("smeth") else n["a"]
                for p, x in zip(g["ps"], a):
                    self.calls.setdefault((g["id"], p["id"]), []).append((x, f))
                    if self.ty(p) == "StrCached": self.obl.append(("%s argument of %s" % (p["n"], g["n"]), x, f, n))
                    if self.F.type(p["t"]).get("ref") and x.get("k") == "var": self.asg.setdefault(x["id"], []).append((None, f))
        elif k == "asg":
            self.assign(n["x"], n["y"], f, n, ex)
        elif k == "decl":
            for v in n["v"]:
                if "id" not in v: continue
                if v.get("i") is not None: self.asg.setdefault(v["id"], []).append((v["i"], f))
                if self.ty(v) == "StrCached" and not ex and v.get("i") is not None: self.obl.append(("local " + v["n"], v["i"], f, n))
        elif k == "ret" and self.ty(f) == "StrCached" and not ex and n.get("e") is not None: self.obl.append(("the result", n["e"], f, n))
        elif k == "init" and n.get("r") and not ex:
            r = n["r"].replace("gen::", "")
            fs = {x["n"]: x for x in self.F.records.get(r, {"f": []})["f"]}
            for name, x in zip(n.get("fn", ()), n.get("a", ())):
                if name in fs and self.ty(fs[name]) == "StrCached" and r != "Macro": self.obl.append(("field %s of %s" % (name, r), x, f, n))
        elif k == "addr" or (k == "un" and n.get("o") == "&"):
            e = n.get("e")
            if e and e.get("k") == "var" and e.get("s") == "l" and self.ty(e) == "Str": self.asg.setdefault(e["id"], []).append((None, f))
        for x in n.values():
            if type(x) in (dict, list): self.scan(x, f)
    def assign(self, x, y, f, n, ex):
        if x.get("k") == "var": self.asg.setdefault(x["id"], []).append((y, f))
        if ex: return
        if self.ty(x) == "StrCached" and x.get("k") in ("mem", "deref", "idx", "var"):
            if not self.macrolocal(x): self.obl.append(("%s" % (x.get("n") or "*"), y, f, n))
        if x.get("k") == "mem" and x["n"] in ("Ptr", "Len"):
            b = x["b"]
            if self.ty(b) == "StrCached" and b.get("k") == "mem" and x["n"] == "Ptr": self.obl.append(("%s.Ptr" % b["n"], y, f, n))
            elif b.get("k") == "var" and x["n"] == "Ptr": self.asg.setdefault(b["id"], []).append((None, f))
    def macrolocal(self, x):
        """the name of a macro record that is still a local: judged when it is registered"""
        return x.get("k") == "mem" and x.get("r", "").endswith("Macro") and not x.get("a") and x["b"].get("k") == "var" and x["b"].get("s") in ("l", "p")
    def why(self, e, f, seen=frozenset()):
        """None if the expression denotes interned text, otherwise what is wrong"""
        k = e.get("k")
        if k in ("cast", "icast", "paren", "ctor", "tmp", "bindtmp") and "e" in e: return self.why(e["e"], f, seen)
        if k == "construct" and len(e.get("a", ())) == 1: return self.why(e["a"][0], f, seen)
        if k == "str": return None
        if k == "cond": return self.why(e["x"], f, seen) or self.why(e["y"], f, seen)
        if k == "call":
            n = e.get("n", "")
            if n in EXEMPT: return None
            if e.get("op") and n.endswith("operator=") and len(e["a"]) == 2: return self.why(e["a"][1], f, seen)
            g = self.F.byid.get(e.get("id"))
            if g is not None and self.ty(g) == "StrCached" and self.src(g): return None
            if g is not None and g.get("b") and self.ty(g) in ("Str", "StrCached"):
                if ("ret", g["id"]) in seen: return None
                for r in self.returns(g["b"], []):
                    w = self.why(r, g, seen | {("ret", g["id"])})
                    if w: return "the result of %s (%s)" % (g["n"], w)
                return None
            return "the result of %s" % n
        if k == "init":
            a = e.get("a", [])
            if not a: return None
            if a[0].get("k") == "str" or a[0].get("cv") == 0: return None
            x = a[0]
            while x.get("k") in ("cast", "icast", "paren") and "e" in x: x = x["e"]
            if x.get("k") == "str" or x.get("cv") == 0 or x.get("k") in ("null", "nullptr"): return None
            if x.get("k") == "mem" and x["n"] == "Ptr": return self.why(x["b"], f, seen)
            return "a text built in place"
        if k in ("mem", "deref", "idx"):
            if self.ty(e) == "StrCached" and not self.macrolocal(e): return None
            if k == "mem" and e["n"] == "Ptr": return self.why(e["b"], f, seen)
            return "%s, which is not interned" % (e.get("n") and "the member " + e["n"] or "a referenced text")
        if k == "var":
            if e.get("s") in ("g", "s"):
                g = self.F.gid.get(e["id"]); 
                if self.ty(e) == "StrCached": return None
                return "the global %s" % e["n"]
            if e.get("s") == "p":
                if self.ty(e) == "StrCached": return None
                if ("p", e["id"]) in seen: return None
                sites = self.calls.get((f["id"], e["id"]), [])
                if not sites or self.api(f): return "the caller's text %s" % e["n"]
                for x, g in sites:
                    w = self.why(x, g, seen | {("p", e["id"])})
                    if w: return "the argument %s of %s, called from %s with %s" % (e["n"], f["n"], g["n"], w)
                ds = self.asg.get(e["id"], [])
            else:
                if ("v", e["id"]) in seen: return None
                ds = self.asg.get(e["id"], [])
                if not ds: return None
            for d, g in ds:
                if d is None: return "%s, which is changed through a pointer or member" % e["n"]
                w = self.why(d, g, seen | {("v", e["id"])})
                if w: return "%s, set to %s" % (e["n"], w)
            return None
        if e.get("cv") == 0: return None
        return "an expression whose origin is not the string cache (%s)" % k
    def src(self, g): return True
    def api(self, f):
        """callable by a user: external linkage and declared in a header"""
        if f.get("st"): return False
        if self.hdr is None:
            self.hdr = set()
            for p in glob.glob(os.path.join(gx.REPO, "base", "**", "*.hpp"), recursive=True): self.hdr |= set(re.findall(r"\w+", open(p, errors="replace").read()))
        return f["n"].split("<")[0].split("::")[-1] in self.hdr
    hdr = None
    def returns(self, n, out):
        if type(n) is dict:
            if n.get("k") == "ret" and n.get("e") is not None: out.append(n["e"])
            for x in n.values():
                if type(x) in (dict, list): self.returns(x, out)
        elif type(n) is list:
            for x in n: self.returns(x, out)
        return out

class CacheInterp(p28.HI):
    """what the string cache hands out and what enters the macro table"""
    def __init__(self, F):
        p28.HI.__init__(self, F); self.stores = 0; self.prob = {}
        M = self.models
        M["get_cached_str_allocator"] = lambda ip, e, st: [(s, ("strarena",)) for s, vs in ip.evargs(e["a"], st)]
        M["strbuilder_make_str"] = lambda ip, e, st: [(s, ip.copy(s, vs[1], vs[0])) for s, vs in ip.evargs(e["a"], st)]
        M["str_duplicate"] = lambda ip, e, st: [(s, ip.copy(s, vs[0], vs[1])) for s, vs in ip.evargs(e["a"], st)]
        M["cache_str"] = lambda ip, e, st: [(s, ip.copy(s, vs[0], ("cache",))) for s, vs in ip.evargs(e["a"], st)]
        for n in F.byname:
            if n.startswith("hashtable_set<"): M[n] = CacheInterp.m_set
    def copy(self, st, v, a):
        v = self.devalue(st, v); a = self.devalue(st, a)
        return Rec(("copy", a if a in (("strarena",), ("cache",)) else "elsewhere"), {"Ptr": self.project(v, "Ptr"), "Len": self.project(v, "Len")})
    def interned(self, v):
        if isinstance(v, Rec): return v.base in (("copy", ("strarena",)), ("copy", ("cache",))) or (v.base == C0 and v.d.get("Ptr", C0) == C0) or self.entname(v)
        return self.entname(v)
    def entname(self, v): return type(v) is tuple and any(t for t in p28.ents(v))
    def m_set(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            v = self.devalue(s, vs[2]); self.stores += 1
            macro = e["n"].endswith("Macro>")
            if macro: v = self.project(v, "Name")
            if (macro or "StrCache" in repr(self.table(s, vs[0]))) and not self.interned(v):
                self.prob.setdefault((self.root, "macro" if macro else "cache"), (e["l"], "%s enters the table" % ("a macro whose name is not interned" if macro else "text that is not a copy in the context's string arenas")))
        return p28.HI.m_set(self, e, st)

def check(rep):
    cfg = "nofatal"; F = gx.extract(cfg); P = Prov(F); by = {}
    for what, e, f, n in P.obl:
        rep.ok(); w = P.why(e, f); by[f["n"]] = by.get(f["n"], 0) + 1
        if w: rep.bad("%s:%s" % (f["n"], what), F.at(n["l"]), "only interned text becomes a StrCached", "%s: %s is given %s" % (f["n"], what, w))
    for k in sorted(by)[:40]: rep.sample({"function": k, "StrCached made": by[k]})
    stores = 0
    for f in p28.roots(F)[0]:
        ip = CacheInterp(F); ip.root = f["n"]; st = State()
        outs = ip.invoke(f, st, tuple(("param", p["n"]) for p in f["ps"])); stores += ip.stores
        rep.ok(max(1, ip.stores))
        if P.ty(f) == "StrCached":
            for s, v in outs:
                v = ip.devalue(s, v)
                if not ip.interned(v): ip.prob.setdefault((f["n"], "return"), (f["l"], "returns text that is neither a copy in the context's string arenas nor an entry of the cache"))
        for (r, k), (l, d) in ip.prob.items(): rep.bad("%s:%s" % (r, k), F.at(l), "the string cache hands out text it owns", "%s: %s" % (r, d))
    rep.need("places where text becomes interned", len(P.obl), 70)
    rep.need("table stores", stores, 4)
