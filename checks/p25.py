"""Shape analysis of the list operations: each append, removal, lookup and iteration function is interpreted on heaps holding lists of 0 to 3 entries
(entries that are free, or owned by another list at its head, middle or end) and the resulting heap is compared with the list the operation denotes:
order, forward and backward links, last entry, parent, entry count, and the other lists of the heap, which must be unchanged."""
import itertools
import gx, upf, astm
from absint import Rec, C0, is_c, is_addr
from astm import mkstr, fkey, wrap, ptr, code, objname, NULLCODE, NULLSTR, Obj
LEVEL = "bounded"
BODIES = ["CT_Class_Body", "CT_Enum_Body", "CT_Export_Body", "CT_Extern_Linkage_Body", "CT_Function_Body", "CT_Global_Body", "CT_Namespace_Body", "CT_Struct_Body", "CT_Union_Body"]
ENTRY_KINDS = ["CT_Function", "CT_Comment", "CT_Variable", "CT_Class", "CT_Untyped"]

class Heap:
    def __init__(self, F):
        self.F = F; self.ip = upf.UpfInterp(F, {n: astm.TextInterp.m_nop for n in ("c_str_fmt", "c_str_fmt_out_err", "process_exit", "assert_crash")}); self.st = self.ip.base_state()
    def put(self, name, kind, **kw):
        kw.setdefault("Name", name)
        Obj(self.F, name, kind, **kw).put(self.st); return name
    def body(self, name, n, kind="CT_Class_Body", ekind="CT_Function"):
        es = ["%s%d" % (name, i) for i in range(n)]
        for i, e in enumerate(es):
            kw = dict(Parent=code(name))
            if i: kw["Prev"] = code(es[i - 1])
            if i + 1 < n: kw["Next"] = code(es[i + 1])
            self.put(e, ekind, **kw)
        kw = dict(Front=code(es[0]), Back=code(es[-1])) if es else {}
        self.put(name, kind, NumEntries=n, **kw); return es
    def params(self, name, n, kind="CT_Parameters", parent=None):
        es = [name] + ["%s%d" % (name, i) for i in range(1, n)]
        for i, e in enumerate(es):
            kw = {}
            if i + 1 < n: kw["Next"] = code(es[i + 1])
            if i == 0:
                kw["NumEntries"] = n
                if n > 1: kw["Last"] = code(es[-1])
                if parent: kw["Parent"] = code(parent)
            else: kw.update(Parent=code(name), NumEntries=1)
            self.put(e, kind, **kw)
        return es
    def snap(self, names): return {n: self.st.mem[("H", n)] for n in names}

def slot(F, st, n, f):
    v = st.mem.get(("H", n))
    return v.d.get(fkey(F, f), C0) if isinstance(v, Rec) else None
def name(ip, st, n):
    v = slot(ip.F, st, n, "Name")
    return ip.text_of_str(st, v) if isinstance(v, Rec) else None
def one_path(H, outs, what, bad):
    if H.ip.nulls: bad.append(("null", what, "null dereference of %s in %s" % H.ip.nulls[0])); return None
    if len(outs) != 1: bad.append(("paths", what, "%d outcomes (does not terminate or depends on unknown data)" % len(outs))); return None
    return outs[0]
def chain(F, st, first, nxt="Next"):
    out = []; cur = first
    while objname(cur):
        out.append(objname(cur))
        if len(out) > 12: return out
        cur = slot(F, st, out[-1], nxt)
    return out
def known(v): return v in (C0, NULLCODE) or objname(v) is not None
def payload(F, rec, skip): return {k: v for k, v in rec.d.items() if k not in skip and v not in (C0, NULLCODE, NULLSTR)}
def unchanged(H, st, before, what, bad, rule="stolen"):
    for n, r in before.items():
        now = st.mem[("H", n)]
        a = {k: v for k, v in r.d.items() if v not in (C0, NULLCODE, NULLSTR)}; b = {k: v for k, v in now.d.items() if v not in (C0, NULLCODE, NULLSTR)} if isinstance(now, Rec) else None
        if a != b:
            if b is None: bad.append((rule, what, "entry %s was overwritten" % n)); continue
            ks = {k for k in set(a) | set(b) if a.get(k) != b.get(k)}
            fs = [f for f in ("Parent", "Prev", "Next", "NumEntries", "Name") if fkey(H.F, f) in ks] or sorted(ks)
            bad.append((rule, what, "%s, which belongs elsewhere, has its %s changed" % (n, ", ".join(fs))))

def verify_body(H, st, self_, want, what, bad, before):
    """want: entry names in order; a copy may stand for an entry"""
    F = H.F
    got = chain(F, st, slot(F, st, self_, "Front"))
    lab = [name(H.ip, st, g) for g in got]
    if lab != want: bad.append(("order", what, "entries are %s instead of %s" % (lab, want))); return
    skip = {fkey(F, f) for f in ("Prev", "Next", "Parent")}
    for g, w in zip(got, want):
        if g == w or w not in before: continue
        if payload(F, st.mem[("H", g)], skip) != payload(F, before[w], skip): bad.append(("copy", what, "the copy of %s differs from it" % w))
    for i, g in enumerate(got):
        pv = slot(F, st, g, "Prev")
        if objname(pv) != (got[i - 1] if i else None): bad.append(("back link", what, "entry %s has %s before it instead of %s" % (lab[i], objname(pv), got[i - 1] if i else None)))
        if objname(slot(F, st, g, "Parent")) != self_: bad.append(("parent", what, "entry %s has parent %s" % (lab[i], objname(slot(F, st, g, "Parent")))))
    if objname(slot(F, st, self_, "Back")) != (got[-1] if got else None): bad.append(("last", what, "the last entry is %s" % objname(slot(F, st, self_, "Back"))))
    if slot(F, st, self_, "NumEntries") != ("c", len(want)): bad.append(("count", what, "%s entries counted, %d present" % (slot(F, st, self_, "NumEntries"), len(want))))

def t_body_append(F):
    for fn in ("code_append", "body_append"):
        for kind in BODIES:
            for ek in (ENTRY_KINDS if kind == "CT_Class_Body" else ENTRY_KINDS[:2]):
                for n in (0, 1, 2, 3):
                    for donor in ("free", "only", "first", "middle", "last", "self first", "self last"):
                        if donor.startswith("self") and not n: continue
                        H = Heap(F); es = H.body("b", n, kind, ek); bad = []
                        if donor == "free": H.put("x", ek); x = "x"; keep = []
                        elif donor.startswith("self"): x = es[0] if donor == "self first" else es[-1]; keep = []
                        else:
                            ds = H.body("d", 1 if donor == "only" else 3, kind, ek); x = {"only": ds[0], "first": ds[0], "middle": ds[len(ds) // 2], "last": ds[-1]}[donor]; keep = ds + ["d"]
                        what = "%s(%s of %d, %s %s)" % (fn, kind[3:], n, donor, ek[3:])
                        before = H.snap(keep); pay = H.snap([x])
                        o = one_path(H, H.ip.run(fn, (code("b"), code(x)), H.st), what, bad)
                        if o: st = o[0]; unchanged(H, st, before, what, bad); verify_body(H, st, "b", es + [x], what, bad, pay)
                        yield fn, bad

def t_body_body(F):
    for fn in ("body_append", "body_append_body"):
        for kind in BODIES:
            for n in (0, 1, 2):
                for m in (0, 1, 2, 3):
                    H = Heap(F); es = H.body("b", n, "CT_Class_Body"); ds = H.body("d", m, kind); bad = []
                    what = "%s(body of %d, %s of %d)" % (fn, n, kind[3:], m)
                    before = H.snap(ds + ["d"])
                    o = one_path(H, H.ip.run(fn, (code("b"), code("d")), H.st), what, bad)
                    if o: st = o[0]; unchanged(H, st, before, what, bad); verify_body(H, st, "b", es + ds, what, bad, before)
                    yield fn, bad
    # two appends in a row, and an entry appended twice
    for n in (0, 1):
        for seq in itertools.product(("x", "y", "d1", "body"), repeat=2):
            H = Heap(F); es = H.body("b", n); ds = H.body("d", 2); H.put("x", "CT_Function"); H.put("y", "CT_Variable"); bad = []
            what = "body_append %s then %s to a body of %d" % (seq + (n,)); before = H.snap(ds + ["d"])
            want = list(es); st = H.st; ok = True
            for s in seq:
                a = "d" if s == "body" else s; want += ds if s == "body" else [s]
                o = one_path(H, H.ip.run("body_append", (code("b"), code(a)), st), what, bad)
                if not o: ok = False; break
                st = o[0]
            if ok: unchanged(H, st, before, what, bad); verify_body(H, st, "b", want, what, bad, {})
            yield "body_append", bad

def t_iter(F):
    for n in range(4):
        for pre, mk in (("CodeBody", "body"), ("CodeParams", "params"), ("CodeDefineParams", "params")):
            if mk == "params" and not n: continue
            H = Heap(F); es = getattr(H, mk)("l", n); bad = []
            what = "iteration over a %s list of %d" % (pre, n); fnb, fne, fnn = ["%s_%s" % (w, pre) for w in ("begin", "end", "next")]
            o = one_path(H, H.ip.run(fnb, (code("l"),), H.st), what, bad)
            seen = []
            while o:
                cur = H.ip.devalue(o[0], o[1]); o2 = one_path(H, H.ip.run(fne, (code("l"),), o[0]), what, bad)
                if not o2: break
                end = H.ip.devalue(o2[0], o2[1])
                if objname(cur) == objname(end): break
                if not objname(cur) or len(seen) > 6: bad.append(("iteration", what, "leaves the list")); break
                seen.append(objname(cur)); o = one_path(H, H.ip.run(fnn, (code("l"), wrap(ptr(seen[-1]))), o2[0]), what, bad)
            if seen != es and not bad: bad.append(("iteration", what, "visits %s instead of %s" % (seen, es)))
            yield "%s iteration" % pre, bad
            bad = []; hs = {"CodeBody": "code_has_entries", "CodeParams": "params_has_entries", "CodeDefineParams": "define_params_has_entries"}[pre]
            o = one_path(H, H.ip.run(hs, (code("l"),), H.st), what, bad)
            if o and o[1] != ("c", int(n > 0)): bad.append(("result", hs, "has_entries of %d entries is %s" % (n, o[1])))
            yield hs, bad
    for pre in ("CodeParams", "CodeDefineParams", "CodeSpecifiers"):
        H = Heap(F); bad = []; what = "iteration over a null %s" % pre
        b = one_path(H, H.ip.run("begin_" + pre, (NULLCODE,), H.st), what, bad); e = b and one_path(H, H.ip.run("end_" + pre, (NULLCODE,), H.st), what, bad)
        if e and (objname(b[1]) or objname(e[1]) or H.ip.devalue(b[0], b[1]) != H.ip.devalue(e[0], e[1])): bad.append(("iteration", what, "begin and end differ"))
        yield "%s iteration" % pre, bad

def verify_params(H, st, want, what, bad, before):
    F = H.F
    got = chain(F, st, code("l"))
    lab = [name(H.ip, st, g) for g in got]
    if lab != want: bad.append(("order", what, "parameters are %s instead of %s" % (lab[:8], want))); return
    skip = {fkey(F, f) for f in ("Last", "Next", "Parent", "NumEntries")}
    for g, w in zip(got, want):
        if g != w and w in before and payload(F, st.mem[("H", g)], skip) != payload(F, before[w], skip): bad.append(("copy", what, "the copy of %s differs from it" % w))
    for g, w in zip(got[1:], lab[1:]):
        if objname(slot(F, st, g, "Parent")) != "l": bad.append(("parent", what, "parameter %s has parent %s" % (w, objname(slot(F, st, g, "Parent")))))
        if slot(F, st, g, "NumEntries") != ("c", 1) or objname(slot(F, st, g, "Last")): bad.append(("entry", what, "parameter %s still carries another list's count or last entry" % w))
    if objname(slot(F, st, "l", "Last")) != (got[-1] if len(got) > 1 else None): bad.append(("last", what, "the last parameter is %s" % objname(slot(F, st, "l", "Last"))))
    if slot(F, st, "l", "NumEntries") != ("c", len(want)): bad.append(("count", what, "%s parameters counted, %d present" % (slot(F, st, "l", "NumEntries"), len(want))))

def t_params(F):
    for fn, kind in (("params_append", "CT_Parameters"), ("define_params_append", "CT_Parameters_Define")):
        for n in (1, 2, 3):
            for donor in ("free", "list 2", "list 3", "entry 1 of 3", "entry 2 of 3", "owned", "owned list 2", "own entry", "own last"):
                if donor.startswith("own ") and n < 2: continue
                H = Heap(F); es = H.params("l", n, kind); bad = []; keep = []
                if donor in ("free", "owned"): add = H.params("x", 1, kind, parent="fn" if donor == "owned" else None); keep = add if donor == "owned" else []
                elif donor.startswith("list"): add = H.params("x", int(donor[-1]), kind); keep = add[1:]
                elif donor.startswith("owned list"): add = H.params("x", 2, kind, parent="fn"); keep = add
                elif donor.startswith("entry"): ds = H.params("d", 3, kind); add = [ds[int(donor[6])]]; keep = ds
                elif donor == "own entry": add = [es[1]]
                elif donor == "own last": add = [es[-1]]
                H.put("fn", "CT_Function")
                what = "%s(list of %d, %s)" % (fn, n, donor); before = H.snap(keep); pay = H.snap(add)
                o = one_path(H, H.ip.run(fn, (code("l"), code(add[0])), H.st), what, bad)
                if o: unchanged(H, o[0], before, what, bad); verify_params(H, o[0], es + add, what, bad, pay)
                yield fn, bad
        for n in (1, 2):
            H = Heap(F); es = H.params("l", n, kind); xs = H.params("x", 2, kind); ys = H.params("y", 1, kind); bad = []; what = "%s: a list of 2, then one more, to a list of %d" % (fn, n); st = H.st
            for a in ("x", "y"):
                o = one_path(H, H.ip.run(fn, (code("l"), code(a)), st), what, bad)
                if not o: break
                st = o[0]
            if o: verify_params(H, st, es + xs + ys, what, bad, {})
            yield fn, bad
    for fn, kind in (("params_get", "CT_Parameters"), ("define_params_get", "CT_Parameters_Define")):
        for n in (1, 2, 3):
            for i in range(n + 2):
                H = Heap(F); es = H.params("l", n, kind); bad = []; what = "%s(list of %d, %d)" % (fn, n, i)
                o = one_path(H, H.ip.run(fn, (code("l"), ("c", i)), H.st), what, bad)
                if o and objname(H.ip.devalue(*o)) != (es[i] if i < n else None): bad.append(("result", what, "gives %s" % objname(H.ip.devalue(*o))))
                yield fn, bad

def t_entry(F):
    for n in range(4):
        for i in range(n + 3):
            H = Heap(F); es = H.body("b", n); bad = []; what = "code_entry(body of %d, %d)" % (n, i)
            o = one_path(H, H.ip.run("code_entry", (code("b"), ("c", i)), H.st), what, bad)
            if o:
                v = H.ip.devalue(*o); t = None
                if is_addr(v): t = H.ip.read(o[0], (v[1], v[2]))
                elif v not in (C0, NULLCODE): bad.append(("result", what, "gives %s" % (v,)))
                if objname(t) != (es[i] if i < n else None): bad.append(("result", what, "gives %s" % objname(t)))
            yield "code_entry", bad

def specobj(H, lst, num=None): astm.specs(H.F, H.st, "s", lst); return code("s")
def speclist(H, st):
    F = H.F; r = st.mem[("H", "s")]; n = r.d[fkey(F, "NumEntries")]; inv = {v: k[5:] for k, v in F.enumvals("Specifier").items() if k.startswith("Spec_")}
    if not is_c(n): return n
    arr = r.d[fkey(F, "ArrSpecs")]
    return [inv.get(H.ip.project(arr, ("i", ("c", i)))[1], "?") for i in range(n[1])]
def t_specs(F):
    names = ["Const", "Inline", "Static", "Virtual", "Final", "Override"]
    cap = astm.field(F, "AST", "ArrSpecs")["size"] // 4
    for n in (0, 1, 2, 6, cap - 1, cap):
        lst = [names[i % 6] for i in range(n)]
        for s in ("Const", "Mutable"):
            H = Heap(F); sp = specobj(H, lst); bad = []; what = "specifiers_append(list of %d, %s)" % (n, s)
            outs = H.ip.run("specifiers_append", (sp, ("c", F.enumvals("Specifier")["Spec_" + s])), H.st)
            if n == cap and not outs: yield "specifiers_append", bad; continue   # a failure that stops the program in this configuration
            o = one_path(H, outs, what, bad)
            if o:
                want = lst + [s] if n < cap else lst
                if o[1] != ("c", int(n < cap)): bad.append(("result", what, "returns %s" % (o[1],)))
                if speclist(H, o[0]) != want: bad.append(("order", what, "list is %s instead of %s" % (speclist(H, o[0]), want)))
                rec = o[0].mem[("H", "s")].d
                extra = {k for k, v in rec.items() if v not in (C0, NULLCODE)} - {fkey(F, f) for f in ("ArrSpecs", "NumEntries", "Type")}
                if extra: bad.append(("overflow", what, "writes outside the specifier array"))
            yield "specifiers_append", bad
    for lst in [[], ["Const"], ["Inline"], ["Const", "Inline"], ["Inline", "Const"], ["Inline", "Const", "Static"], ["Const", "Const"], ["Inline", "Const", "Const", "Static"]]:
        for fn in ("specifiers_remove", "specifiers_has", "specifiers_index_of"):
            H = Heap(F); sp = specobj(H, lst); bad = []; what = "%s(%s, Const)" % (fn, lst)
            o = one_path(H, H.ip.run(fn, (sp, ("c", F.enumvals("Specifier")["Spec_Const"])), H.st), what, bad)
            i = lst.index("Const") if "Const" in lst else -1
            if o:
                want = int(i >= 0) if fn == "specifiers_has" else i
                if o[1] != ("c", want): bad.append(("result", what, "returns %s instead of %d" % (o[1], want)))
                wl = list(lst)
                if fn == "specifiers_remove" and i >= 0: wl.pop(i)
                if speclist(H, o[0]) != wl: bad.append(("order", what, "list is %s instead of %s" % (speclist(H, o[0]), wl)))
            yield fn, bad
    for n in range(4):
        lst = names[:n]; H = Heap(F); sp = specobj(H, lst); bad = []; what = "iteration over %d specifiers" % n; seen = []
        o = one_path(H, H.ip.run("begin_CodeSpecifiers", (sp,), H.st), what, bad)
        while o and len(seen) < 6:
            cur = o[1]; e = one_path(H, H.ip.run("end_CodeSpecifiers", (sp,), o[0]), what, bad)
            if not e: break
            if cur == e[1]: break
            if not is_addr(cur): bad.append(("iteration", what, "not in the array")); break
            seen.append(H.ip.read(e[0], (cur[1], cur[2]))); o = one_path(H, H.ip.run("next_CodeSpecifiers", (sp, cur), e[0]), what, bad)
        want = [("c", F.enumvals("Specifier")["Spec_" + s]) for s in lst]
        if seen != want and not bad: bad.append(("iteration", what, "visits %s" % seen))
        yield "CodeSpecifiers iteration", bad

def t_iface(F):
    for fn, kind in (("class_add_interface", "CT_Class"), ("struct_add_interface", "CT_Struct")):
        for n in (0, 1, 2, 3):
            for donor in ("free", "parent of another", "used as interface elsewhere", "already in the list"):
                if donor == "already in the list" and not n: continue
                H = Heap(F); bad = []; es = ["p%d" % i for i in range(n)]
                for i, e in enumerate(es): H.put(e, "CT_Typename", **({"Next": code(es[i + 1])} if i + 1 < n else {}))
                H.put("c", kind, **({"ParentType": code(es[0])} if es else {})); keep = []
                H.put("x", "CT_Typename"); x = "x"
                if donor == "parent of another": H.put("y", "CT_Typename"); H.put("x", "CT_Typename", Next=code("y")); H.put("c2", kind, ParentType=code("x")); keep = ["x", "y", "c2"]
                elif donor == "used as interface elsewhere": H.put("y", "CT_Typename"); H.put("z", "CT_Typename", Next=code("x")); H.put("x", "CT_Typename", Next=code("y")); H.put("c2", kind, ParentType=code("z")); keep = ["x", "y", "z", "c2"]
                elif donor == "already in the list": x = es[0]
                what = "%s(%d parents, type %s)" % (fn, n, donor); before = H.snap(keep)
                # a parent type given by the user may be another definition's parent type too
                if n == 1: H.put("c3", kind, ParentType=code("p0")); before.update(H.snap(["p0", "c3"]))
                o = one_path(H, H.ip.run(fn, (code("c"), code(x)), H.st), what, bad)
                if o:
                    st = o[0]; unchanged(H, st, before, what, bad, "shared")
                    got = [name(H.ip, st, g) for g in chain(F, st, slot(F, st, "c", "ParentType"))]
                    if got != es + [x]: bad.append(("order", what, "parent types are %s instead of %s" % (got[:8], es + [x])))
                    if slot(F, st, "c", "ParentAccess") != ("c", F.enumvals("AccessSpec")["AccessSpec_Public"]): bad.append(("access", what, "parent access is not public"))
                yield fn, bad

TESTS = [t_body_append, t_body_body, t_iter, t_params, t_entry, t_specs, t_iface]
def one(job):
    cfg, i = job; F = gx.extract(cfg); n = {}; bad = []
    for fn, b in TESTS[i](F): n[fn] = n.get(fn, 0) + 1; bad += [(fn,) + x for x in b]
    return cfg, n, bad

def check(rep):
    cfgs = ("base", "nofatal", "clib")
    tot = {}; cases = 0
    for (cfg, n, bad) in gx.pmap(one, [(c, i) for c in cfgs for i in range(len(TESTS))]):
        F = gx.extract(cfg)
        for fn, k in n.items(): tot[fn] = tot.get(fn, 0) + k; cases += k
        nb = 0; seen = set()
        for fn, rule, what, d in bad:
            nb += 1
            f = F.byname.get(fn) or F.byname.get("next_" + fn.split()[0])
            rep.bad("%s:%s" % (fn, rule), F.at(f[0]) if f else fn, "list operations", "%s: %s [%s]" % (what, d, cfg))
        rep.ok(sum(n.values()) - min(nb, sum(n.values())))
    rep.need("list operations", len(tot), 18); rep.need("cases", cases, 900)
    rep.cov["cases per operation"] = tot
    rep.cov["bounds"] = "lists of 0 to 3 entries; entries free, owned (first, middle, last), or lists themselves; specifier lists up to their capacity"
    rep.assumptions.append("lists longer than 3 entries behave as those of 3: the operations touch only the list head, its last entry and the entries added")
