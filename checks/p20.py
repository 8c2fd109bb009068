"""Growable arrays and string builders, interpreted symbolically over linear relations between count, capacity, index and length (lib/lin.py): on every
path every write and read lies inside the storage that is current at that point (not one released by growing), and the resulting count and content are, at
every index, those the operation denotes: earlier elements unchanged or shifted, the given ones at their place, storage acquired kept and the old released once."""
import os, gx, absint, lin
from lin import LinInterp, sym, add, sub, scale, mk, divexact
from absint import State, Rec, C0, C1, UND, is_c, is_addr
LEVEL = "sound"
SRC = os.path.join(gx.VERIF, "lib", "containers.cpp")
ELT = "GxElement"

class Op:
    def __init__(self, F, fn, esz):
        self.F = F; self.f = F.byname[fn][0] if fn in F.byname else F.fn(fn); self.ip = LinInterp(F, esz); self.esz = esz; self.ip.initial_globals = False
        self.st = State(); self.con = []; self.args = []
        self.cell = ("L", 0, "handle"); self.B = ("B", "in0")
        self.name = fn.split("<")[0]
    def block(self, cap="Cap", num="Num", slack=0):
        st = self.st; b = self.B; ip = self.ip
        C, N = mk({("hdr", b, 16): 1}, 0), mk({("hdr", b, 24): 1}, 0)
        st.mem[("BS", b)] = add(add(scale(C, self.esz), ("c", 32)), ("c", slack)); st.mem[("BW", b)] = ()
        self.con += [scale(N, -1), sub(N, C)] + ([add(scale(C, -1), C1)] if slack == 0 else [])     # an array is created with room for one element or more
        st.mem[self.cell] = ip.ptr(b, ("c", 32))
        self.N, self.C = N, C
        return N, C
    def items(self, n):
        b = ("B", "items"); self.st.mem[("BS", b)] = scale(n, self.esz); self.st.mem[("BW", b)] = (); return self.ip.ptr(b, C0)
    def run(self, args):
        self.st.x["lin"] = tuple(self.con)
        return self.ip.invoke(self.f, self.st, tuple(args))
    def by(self): return ("addr", self.cell, ()) if self.F.type(self.f["ps"][0]["t"])["k"] == "ptr" else self.st.mem[self.cell]

def post(rep, op, res, spec, oom_ok=True, ret_true=True, made=False, refuse=False):
    """spec(state) -> (count, [(forms(i), expected)]) on success; on failure nothing changed"""
    ip = op.ip; bad = []; n = 0
    okc = 0
    for st, rv in res:
        n += 1
        rv = ip.devalue(st, rv)
        h = st.mem.get(op.cell) if not made else rv
        if made and h == C0 and st.x.get("oom"): continue
        if not ip.isbp(h): bad.append("the handle no longer refers to a storage"); continue
        b = h[1]
        if refuse:
            if rv != C0: bad.append("an invalid range is accepted")
            else: rv = C1
        failed = not made and ret_true and rv == C0
        if not made and ret_true and not failed and rv != C1: bad.append("returns neither true nor false"); continue
        if st.mem.get(("BF", b)): bad.append("the handle refers to released storage"); continue
        if h[2][0][1] != ("c", 32): bad.append("the handle does not refer to the first element"); continue
        def cell(o):
            v = st.mem.get(("BC", b, ("c", o)))
            if v is None and b[1] == "in0": v = mk({("hdr", b, o): 1}, 0)
            return v if v is not None and lin.isnum(v) else None
        num, cap = cell(24), cell(16)
        if num is None or cap is None: bad.append("count or capacity of the new storage is not set"); continue
        extra = 1 if op.esz == 1 else 0
        if not ip.le(st, add(add(scale(cap, op.esz), ("c", 32)), ("c", extra)), st.mem[("BS", b)]): bad.append("the capacity recorded is larger than the storage")
        if not ip.le(st, num, cap): bad.append("the count recorded is larger than the capacity")
        for k in st.mem:
            if k[0] == "BS" and k[1] != b and k[1][1] != "items" and not (made and k[1][1] == "in0") and not st.mem.get(("BF", k[1])): bad.append("storage is lost: neither kept nor released")
        if failed:
            if not oom_ok or not any(k[0] == "oom" for k in st.x) : pass
            en, cases = op.N, [(lambda i: (scale(i, -1), add(sub(i, op.N), C1)), ("init", 0))]
            if not st.x.get("oom"): bad.append("the operation fails although memory is available"); continue
        else:
            okc += 1
            en, cases = spec(st)
        if en is not None and not (ip.le(st, en, num) and ip.le(st, num, en)): bad.append("the count afterwards is %s, not %s" % (show(num), show(en))); continue
        for forms, exp in cases:
            i = mk({"i": 1}, 0)
            s = ip.assume(st, *forms(i))
            if s is None: continue
            for s2, src in ip.content(s, b, s.mem[("BW", b)], i):
                for s3, src in ip.settle(s2, src):
                    n += 1
                    if not matches(ip, s3, src, exp, i): bad.append("element %s afterwards is %s, expected %s" % (where(forms), show(src), show(exp)))
    if not okc: bad.append("no path succeeds")
    return n, bad
def where(f): return "at the index checked"
def matches(ip, st, src, exp, i):
    if exp[0] == "init": e = add(i, exp[1] if type(exp[1]) is tuple else ("c", exp[1])); return src[0] == "init" and src[1][1] == (exp[2] if len(exp) > 2 else "in0") and ip.le(st, e, src[2]) and ip.le(st, src[2], e)
    if exp[0] == "val":
        if src[0] != "val": return False
        return src[1] == exp[1]
    return True
def show(v):
    if type(v) is tuple and v and v[0] == "c": return str(v[1])
    if type(v) is tuple and v and v[0] == "lin":
        nm = lambda s: {16: "capacity", 24: "count"}.get(s[2], "?") if type(s) is tuple and s[0] == "hdr" else s if type(s) is str else s[0] if type(s) is tuple else "?"
        return " + ".join(("%s" if c == 1 else "%d*%%s" % c) % nm(s) for s, c in v[1]) + (" + %d" % v[2] if v[2] else "")
    if type(v) is tuple and v and v[0] == "init": return "old element"
    if type(v) is tuple and v and v[0] == "val": return "a given value"
    if type(v) is tuple and v and v[0] in ("undef", "mixed"): return {"undef": "not set", "mixed": "misaligned"}[v[0]]
    return "?"

rng = lambda lo, hi: (lambda i: (sub(lo, i), add(sub(i, hi), C1)))      # lo <= i < hi

def array_ops(F):
    """-> list of (name, thunk -> (op, result, spec, kwargs))"""
    E = "<%s>" % ELT; sz = 24; V = ("mem", ("value",)); k = sym("n"); x = sym("idx")
    def mkop(fn): return Op(F, fn + E, sz)
    def keep(op, hi): return (rng(C0, hi), ("init", 0))
    out = []
    def t(fn, build): out.append((fn, build))
    def append(fn="array_append"):
        op = mkop(fn); op.block(); return op, op.run([op.by(), V]), lambda st: (add(op.N, C1), [keep(op, op.N), (rng(op.N, add(op.N, C1)), ("val", V))]), {}
    t("array_append", append)
    def items():
        op = mkop("array_append_items"); op.block(); op.con += [add(scale(k, -1), C1)]
        return op, op.run([op.by(), op.items(k), k]), lambda st: (add(op.N, k), [keep(op, op.N), (rng(op.N, add(op.N, k)), ("init", sub(C0, op.N), "items"))]), {}
    t("array_append_items", items)
    def at():
        op = mkop("array_append_at"); op.block(); op.con += [scale(x, -1)]
        def spec(st):
            cs = []
            return add(op.N, C1), [
                (lambda i: rng(C0, op.N)(i) + (add(sub(i, x), C1),), ("init", 0)),                                       # before idx
                (lambda i: (sub(x, op.N), sub(i, x), sub(x, i)), ("val", V)),                                           # idx <= N: at idx
                (lambda i: (add(sub(op.N, x), C1), sub(i, op.N), sub(op.N, i)), ("val", V)),                            # idx > N: at the end
                (lambda i: (add(sub(x, i), C1), sub(i, op.N)), ("init", -1))]
        return op, op.run([op.by(), V, x]), spec, {}
    t("array_append_at", at)
    def items_at():
        op = mkop("array_append_items_at"); op.block(); op.con += [add(scale(k, -1), C1), scale(x, -1)]
        def spec(st):
            return add(op.N, k), [
                (lambda i: rng(C0, op.N)(i) + (add(sub(i, x), C1),), ("init", 0)),
                (lambda i: (sub(x, op.N),) + rng(x, add(x, k))(i), ("init", sub(C0, x), "items")),
                (lambda i: (add(sub(op.N, x), C1),) + rng(op.N, add(op.N, k))(i), ("init", sub(C0, op.N), "items")),
                (lambda i: rng(add(x, k), add(op.N, k))(i), ("init", sub(C0, k)))]
        return op, op.run([op.by(), op.items(k), k, x]), spec, {}
    t("array_append_items_at", items_at)
    def remove():
        op = mkop("array_remove_at"); op.block(); op.con += [scale(x, -1), add(sub(x, op.N), C1)]
        return op, op.run([op.by(), x]), lambda st: (sub(op.N, C1), [(rng(C0, x), ("init", 0)), (rng(x, sub(op.N, C1)), ("init", 1))]), {"ret_true": False}
    t("array_remove_at", remove)
    def pop():
        op = mkop("array_pop"); op.block(); op.con += [add(scale(op.N, -1), C1)]
        return op, op.run([op.by()]), lambda st: (sub(op.N, C1), [keep(op, sub(op.N, C1))]), {"ret_true": False}
    t("array_pop", pop)
    def clear():
        op = mkop("array_clear"); op.block(); return op, op.run([op.by()]), lambda st: (C0, []), {"ret_true": False}
    t("array_clear", clear)
    def resize():
        op = mkop("array_resize"); op.block(); op.con += [add(scale(k, -1), C1)]
        return op, op.run([op.by(), k]), lambda st: (k, [(lambda i: rng(C0, op.N)(i) + (add(sub(i, k), C1),), ("init", 0))]), {}
    t("array_resize", resize)
    def reserve():
        op = mkop("array_reserve"); op.block(); op.con += [scale(k, -1)]
        return op, op.run([op.by(), k]), lambda st: (op.N, [keep(op, op.N)]), {"cap": k}
    t("array_reserve", reserve)
    def setcap():
        op = mkop("array_set_capacity"); op.block(); op.con += [scale(k, -1)]
        return op, op.run([op.by(), k]), lambda st: (None, [(lambda i: rng(C0, op.N)(i) + (add(sub(i, k), C1),), ("init", 0))]), {"cap": k}
    t("array_set_capacity", setcap)
    def grow():
        op = mkop("array_grow"); op.block(); op.con += [add(scale(k, -1), C1)]
        return op, op.run([op.by(), k]), lambda st: (op.N, [keep(op, op.N)]), {"cap": k}
    t("array_grow", grow)
    def fill():
        op = mkop("array_fill"); op.block(); y = sym("end"); op.con += [scale(x, -1), sub(x, y), sub(y, op.N)]
        return op, op.run([op.by(), x, y, V]), lambda st: (op.N, [(rng(C0, x), ("init", 0)), (rng(x, y), ("val", V)), (rng(y, op.N), ("init", 0))]), {}
    t("array_fill", fill)
    def fill_out():
        op = mkop("array_fill"); op.block(); y = sym("end"); op.con += [scale(x, -1), sub(x, y), add(sub(op.N, y), C1)]
        return op, op.run([op.by(), x, y, V]), lambda st: (op.N, [(rng(C0, op.N), ("init", 0))]), {"refuse": True}
    t("array_fill", fill_out)
    ALLOC = ("mem", ("allocator",))
    def init_res():
        op = mkop("array_init_reserve"); op.block(); op.con += [add(scale(k, -1), C1)]; return op, op.run([ALLOC, k]), lambda st: (C0, []), {"made": True, "cap": k}
    t("array_init_reserve", init_res)
    def init():
        op = mkop("array_init"); op.block(); return op, op.run([ALLOC]), lambda st: (C0, []), {"made": True}
    t("array_init", init)
    return out

def string_ops(F):
    k = sym("n"); out = []; V = ("mem", ("value",)); T = lambda at: (lambda i: (sub(at, i), sub(i, at)))
    ALLOC = ("mem", ("allocator",))
    def mkop(fn):
        op = Op(F, fn, 1); op.ip.models["c_str_len"] = lambda s, e, st: [(st2, k) for st2, _ in s.evargs(e["a"], st)]; return op
    def block(op):
        op.block(slack=1)
    def t(fn, build): out.append((fn, build))
    def appended(op, n): return lambda st: (add(op.N, n), [(rng(C0, op.N), ("init", 0)), (rng(op.N, add(op.N, n)), ("init", sub(C0, op.N), "items")), (T(add(op.N, n)), ("val", C0))])
    def items(op, term=True):
        op.con += [scale(k, -1)]; return op.items(add(k, C1))
    def app_len():
        op = mkop("strbuilder_append_c_str_len"); block(op); p = items(op); return op, op.run([op.by(), p, k]), appended(op, k), {}
    t("strbuilder_append_c_str_len", app_len)
    def app_c():
        op = mkop("strbuilder_append_c_str"); block(op); p = items(op); return op, op.run([op.by(), p]), appended(op, k), {}
    t("strbuilder_append_c_str", app_c)
    def app_str():
        op = mkop("strbuilder_append_str"); block(op); p = items(op); return op, op.run([op.by(), Rec(C0, {"Ptr": p, "Len": k})]), appended(op, k), {}
    t("strbuilder_append_str", app_str)
    def app_char():
        op = mkop("strbuilder_append_char"); block(op)
        return op, op.run([op.by(), V]), lambda st: (add(op.N, C1), [(rng(C0, op.N), ("init", 0)), (T(op.N), ("val", V)), (T(add(op.N, C1)), ("val", C0))]), {}
    t("strbuilder_append_char", app_char)
    def space():
        op = mkop("strbuilder_make_space_for"); block(op); p = items(op)
        return op, op.run([op.by(), p, k]), lambda st: (op.N, [(rng(C0, add(op.N, C1)), ("init", 0))]), {"cap": add(op.N, k)}
    t("strbuilder_make_space_for", space)
    def clear():
        op = mkop("strbuilder_clear"); block(op); return op, op.run([op.by()]), lambda st: (C0, []), {"ret_true": False}
    t("strbuilder_clear", clear)
    def made(op, n): return lambda st: (n, [(rng(C0, n), ("init", 0, "items")), (T(n), ("val", C0))])
    def mk_len():
        op = mkop("strbuilder_make_length"); block(op); p = items(op); return op, op.run([ALLOC, p, k]), made(op, k), {"made": True}
    t("strbuilder_make_length", mk_len)
    def mk_c():
        op = mkop("strbuilder_make_c_str"); block(op); p = items(op); return op, op.run([ALLOC, p]), made(op, k), {"made": True}
    t("strbuilder_make_c_str", mk_c)
    def mk_str():
        op = mkop("strbuilder_make_str"); block(op); p = items(op); return op, op.run([ALLOC, Rec(C0, {"Ptr": p, "Len": k})]), made(op, k), {"made": True}
    t("strbuilder_make_str", mk_str)
    def mk_res():
        op = mkop("strbuilder_make_reserve"); block(op); op.con += [scale(k, -1)]; return op, op.run([ALLOC, k]), lambda st: (C0, [(T(C0), ("val", C0))]), {"made": True, "cap": k}
    t("strbuilder_make_reserve", mk_res)
    def dup():
        op = mkop("strbuilder_duplicate"); block(op); return op, op.run([op.by(), ALLOC]), lambda st: (op.N, [(rng(C0, op.N), ("init", 0)), (T(op.N), ("val", C0))]), {"made": True}
    t("strbuilder_duplicate", dup)
    return out

def run_ops(rep, F, ops, filt=None):
    tot = 0
    for fn, build in ops:
        if filt and fn != filt: continue
        op, res, spec, kw = build()
        f = op.f; bad = []
        cap = kw.pop("cap", None); mkd = kw.get("made")
        n, b = post(rep, op, res, spec, **kw); bad += b
        if cap is not None:
            for st, rv in res:
                rv = op.ip.devalue(st, rv)
                if mkd and rv == C0: continue
                if mkd or rv == C1:
                    h = st.mem[op.cell] if not mkd else rv; c = st.mem.get(("BC", h[1], ("c", 16))) or mk({("hdr", h[1], 16): 1}, 0)
                    nn = st.mem.get(("BC", h[1], ("c", 24))) or mk({("hdr", h[1], 24): 1}, 0)
                    if not op.ip.le(st, cap, c): bad.append("the capacity afterwards is smaller than asked for")
        for l, w in op.ip.viol: bad.append("%s (%s)" % (w, F.at({"l": l}) if l else "?"))
        for st, node, why in op.ip.aborts: bad.append("aborts on valid arguments (%s)" % F.at(node))
        n += op.ip.nobl; tot += n
        rep.ok(n); rep.sample({"operation": fn, "paths": len(res), "obligations": n})
        for w in dict.fromkeys(bad): rep.bad("%s:%s" % (fn, w[:60]), F.at(f), "container operation", "%s: %s" % (fn, w))
    return tot

def check(rep):
    F = gx.extract("base", SRC)
    ops = array_ops(F) + string_ops(F)
    tot = run_ops(rep, F, ops)
    rep.need("operations", len(ops), 26)
    rep.need("obligations", tot, 150)
