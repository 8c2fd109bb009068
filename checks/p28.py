"""Hash hits: every function that looks up or stores into a hash table under a key made from a text's hash is interpreted with symbolic texts; the
entry found under a key is a symbol about which only an equality test of the stored text with the looked-up text (str_are_equal, mem_compare,
c_str_compare*) says anything.  An entry may only be used (returned, read through, handed on) after that test succeeded on the path, and a store must
go to a key known to be free or to hold the same text, and must store that text."""
import gx, absint
from absint import Interp, State, Rec, C0, C1, UND, is_c, is_addr
LEVEL = "bounded"
HASHES = ("crc32", "crc64", "fnv1a32", "fnv1a64", "murmur32", "murmur64")

def walk(v, out):
    t = type(v)
    if t is Rec:
        walk(v.base, out)
        for x in v.d.values(): walk(x, out)
    elif t is tuple:
        if v and v[0] == "ent": out.add(v); return
        for x in v:
            if type(x) in (tuple, Rec): walk(x, out)
def ents(v):
    s = set(); walk(v, s); return s
def hashsrc(k):
    """the hash a key is made from"""
    if type(k) is tuple:
        if k and k[0] == "hash": return k
        for x in k:
            if type(x) is tuple:
                r = hashsrc(x)
                if r: return r
    return None
def companion(k):
    if type(k) is tuple and k[0] == "op" and k[1] == "+" and is_c(k[3]): return ("op", "+", k[2], ("c", k[3][1] - 1)) if k[3][1] != 1 else k[2]
    return ("op", "+", k, ("c", -1))

class HI(Interp):
    def __init__(self, F):
        Interp.__init__(self, F, max_iter=3, inline_depth=8); self.budget = 20_000_000
        self.bad = {}; self.gets = set(); self.sets = set(); self.root = None
        M = self.models
        for h in HASHES: M[h] = HI.m_hash
        for n in F.byname:
            if n.startswith("hashtable_get<"): M[n] = HI.m_get
            elif n.startswith(("hashtable_set<",)): M[n] = HI.m_set
            elif n.startswith("hashtable_"): M[n] = HI.m_any
        for n in ("cache_str", "strbuilder_to_str"): M[n] = lambda ip, e, st: ip.m_same(e, st, 0)
        for n in ("strbuilder_make_str", "str_duplicate"): M[n] = lambda ip, e, st: ip.m_same(e, st, 1 if e["n"] != "str_duplicate" else 0)
        M["str_are_equal"] = HI.m_eq
        for n in ("c_str_compare", "c_str_compare_len", "mem_compare"): M[n] = HI.m_cmp
        for n in ("c_str_len",): M[n] = lambda ip, e, st: [(s, ("len", ip.devalue(s, vs[0]))) for s, vs in ip.evargs(e["a"], st)]
        for n in ("log_fmt", "assert_handler", "get_cached_str_allocator"): M[n] = HI.m_any
    def at_head(self, n, states, it):
        """of the states that agree about the entries keep a few"""
        cnt = {}; out = []; ids = self.declids(n)
        for s in states:
            if it >= 1:
                for i in ids: s.mem.pop(("L", len(self.stack), i), None)
                live = set()
                for r, v in s.mem.items(): walk(v, live)
                keys = {companion(t[2]) for t in live}
                for q in [q for q in s.x if type(q) is tuple and q[0] in ("eq", "put") and q[1] not in live and q[1][2] not in keys]: del s.x[q]
                for t in [t for t in s.dom if type(t) is tuple and t[0] == "ent" and t not in live and not self.keyheld(s, t)]: del s.dom[t]
            k = (tuple(sorted((repr(r), tuple(sorted(map(repr, ents(v))))) for r, v in s.mem.items() if ents(v))), tuple(sorted(repr(x) for x in s.x if type(x) is tuple and x[0] in ("eq", "put"))),
                 tuple(sorted((repr(t), repr(d)) for t, d in s.dom.items() if type(t) is tuple and t[0] == "ent")))
            cnt[k] = cnt.get(k, 0) + 1
            if cnt[k] <= 3: out.append(s)
        return out
    def loop(self, n, states, o, cond, body, step, post_test=False):
        old = o["norm"]; o["norm"] = []
        Interp.loop(self, n, states, o, cond, body, step, post_test)
        o["norm"] = old + self.at_head(n, o["norm"], 0)
    def keyheld(self, s, t):
        h = hashsrc(t[2])
        return any(self.contains(v, h) for r, v in s.mem.items())
    def declids(self, n):
        acc = []
        def w(x):
            if type(x) is dict:
                if x.get("k") == "decl": acc.extend(v["id"] for v in x["v"] if "id" in v)
                for y in x.values():
                    if type(y) in (dict, list): w(y)
            elif type(x) is list:
                for y in x: w(y)
        w(n.get("b")); return acc
    def m_any(self, e, st): return [(s, ("any", id(e))) for s, vs in self.evargs(e["a"], st)]
    def ptr(self, st, v):
        v = self.devalue(st, v)
        return self.project(v, "Ptr")
    def m_same(self, e, st, i):
        out = []
        for s, vs in self.evargs(e["a"], st): out.append((s, self.devalue(s, vs[i])))
        return out
    def m_hash(self, e, st): return [(s, ("hash", self.devalue(s, vs[0]))) for s, vs in self.evargs(e["a"], st)]
    def m_get(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            k = self.devalue(s, vs[1]); t = self.table(s, vs[0])
            if hashsrc(k) is None: out.append((s, ("any", id(e)))); continue
            self.gets.add((self.fname(), e["l"]))
            out.append((s, ("ent", t, k)))
        return out
    def fname(self): return self.F.byid[self.stack[-1]]["n"] if self.stack else "?"
    def known_null(self, st, t): return self.getdom(st, t).only() == 0
    def table(self, st, v):
        v = self.devalue(st, v)
        if is_addr(v): v = self.read(st, (v[1], v[2]))
        return repr(v) if isinstance(v, Rec) else v
    def ok(self, st, t):
        return self.known_null(st, t) or ("eq", t) in st.x or ("eq", t[:2] + (companion(t[2]),)) in st.x
    def unverified(self, st, v): return [t for t in ents(v) if not self.ok(st, t)]
    def report(self, key, l, d): self.bad.setdefault((self.root, key), (l, d))
    def m_set(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st):
            k = self.devalue(s, vs[1]); t = self.table(s, vs[0]); v = self.devalue(s, vs[2]); h = hashsrc(k)
            if h is not None:
                self.sets.add((self.fname(), e["l"]))
                ent = ("ent", t, k); comp = ("ent", t, companion(k))
                same = self.contains(v, h[1])
                if not (self.known_null(s, ent) or ("eq", ent) in s.x or self.known_null(s, comp) or ("eq", comp) in s.x):
                    self.report("set", e["l"], "stores under a text's hash without knowing that the key is free or holds the same text")
                elif not same and not (("eq", comp) in s.x or ("put", comp) in s.x): self.report("text", e["l"], "stores an entry that does not hold the text its key is made from")
                s = s.clone(); s.x[("put", ent)] = 1
                if same: s.x[("eq", ent)] = 1
            out.append((s, UND))
        return out
    def contains(self, v, x):
        if v == x: return True
        if isinstance(v, Rec): return self.contains(v.base, x) or any(self.contains(y, x) for y in v.d.values())
        if isinstance(v, tuple):
            if not v or v[0] in ("c", "str"): return False
            if x[0] == "fld" and x[2] == "Ptr" and v == x[1]: return True     # the whole Str
            if x[0] == "fld" and x[1][0] == "fld" and v == x[1][1]: return True
            return any(self.contains(y, x) for y in v if type(y) in (tuple, Rec))
        return False
    def equal(self, st, a, b, yes, no, e):
        """fork on whether the texts at pointers a and b are equal"""
        hit = []
        for x, y in ((a, b), (b, a)):
            for t in ents(x):
                h = hashsrc(t[2])
                if h and h[1] == y: hit.append(t)
        s1 = st.clone(); s2 = st.clone()
        for t in hit: s1.x[("eq", t)] = 1
        return [(s1, yes), (s2, no)]
    def m_eq(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st): out += self.equal(s, self.ptr(s, vs[0]), self.ptr(s, vs[1]), C1, C0, e)
        return out
    def m_cmp(self, e, st):
        out = []
        for s, vs in self.evargs(e["a"], st): out += self.equal(s, self.devalue(s, vs[0]), self.devalue(s, vs[1]), C0, C1, e)
        return out
    def deref(self, st, v, node, what="*"):
        if not is_addr(v) and not (type(v) is tuple and v[:1] == ("ent",)):
            u = self.unverified(st, v)
            if u: self.report("get", node["l"], "reads the text of an entry found by hash that was not compared with the text looked up")
        return Interp.deref(self, st, v, node, what)
    def write(self, st, loc, val, node=None):
        if loc[0][0] not in ("L", "T") and self.unverified(st, val) and node is not None:
            self.report("get", node["l"], "keeps an entry found by hash that was not compared with the text looked up")
        Interp.write(self, st, loc, val, node)
    def on_opaque(self, st, node, name, args):
        for a in args:
            if self.unverified(st, self.devalue(st, a)): self.report("get", node["l"], "hands on an entry found by hash that was not compared with the text looked up (%s)" % name)
        return None
    def va(self, b, e, st): return [(st, C0)]

def roots(F):
    """functions outside the container whose own body accesses a table, and everything that inlines such a helper"""
    def names(n, out):
        if type(n) is dict:
            if n.get("k") == "call" and n.get("n"): out.add(n["n"])
            for x in n.values():
                if type(x) in (dict, list): names(x, out)
        elif type(n) is list:
            for x in n: names(x, out)
    calls = {}
    for f in F.byid.values():
        if not f.get("b"): continue
        if f["n"].startswith("hashtable_"): continue
        out = set(); names(f["b"], out); calls[f["id"]] = out
    direct = {i for i, c in calls.items() if any(x.startswith(("hashtable_get<", "hashtable_set<")) for x in c)}
    helpers = set(); todo = list(direct); res = set()
    while todo:
        i = todo.pop()
        if i in res: continue
        res.add(i); f = F.byid[i]
        if f.get("static") or f.get("storage") == "static" or f.get("st"):      # internal helper: judged where it is used
            helpers.add(i)
            for j, c in calls.items():
                if f["n"] in c and j not in res: todo.append(j)
    return [F.byid[i] for i in res if i not in helpers], [F.byid[i]["n"] for i in helpers]

def check(rep):
    cfg = "nofatal"; F = gx.extract(cfg)
    fs, helpers = roots(F); gets = set(); sets = set()
    rep.assumptions += ["probing loops are followed 4 steps", "a comparison function that reports equality is exact (P20/strings)"]
    for f in sorted(fs, key=lambda f: f["n"]):
        ip = HI(F); ip.root = f["n"]; st = State()
        args = tuple(("param", p["n"]) for p in f["ps"])
        for s, v in ip.invoke(f, st, args):
            if ip.unverified(s, ip.devalue(s, v)): ip.report("get", f["l"], "returns an entry found by hash that was not compared with the text looked up")
        rep.ok(max(1, len(ip.gets) + len(ip.sets))); rep.sample({"function": f["n"], "lookups": len(ip.gets), "stores": len(ip.sets)})
        gets |= ip.gets; sets |= ip.sets
        for (r, k), (l, d) in ip.bad.items(): rep.bad("%s:%s" % (r, k), F.at(l) if not isinstance(l, dict) else F.at(l), "text compared before a hash hit is used", "%s %s" % (r, d))
    rep.need("lookups and stores by text hash", len(gets | sets), 5)
