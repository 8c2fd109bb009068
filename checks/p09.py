"""Every construction function is interpreted for every argument x {absent, every node kind}, the other arguments valid.  Disallowed kinds and
absent required arguments must yield the invalid code on every path, allowed ones never; no path may dereference a null node."""
import gx, upf, astm
from absint import Rec, C0
from astm import NULLSTR, objname
LEVEL = "exhaustive"

def outcome(ip, outs):
    r = set()
    for s, v in outs:
        n = objname(v)
        r.add("invalid" if n == "INVALID" else "node" if n and n.startswith("new") else "null" if v == astm.NULLCODE else "other")
    return r

def one(job):
    cfg, fn = job
    F = gx.extract(cfg); c = next(c for c in upf.TABLE if c.fn == fn)
    kinds = [k for k in F.enumvals("CodeType") if k.startswith("CT_") and k != "CT_NumTypes" and k != "CT_UnderlyingType"]
    n = 0; bad = []; seen = []
    base = upf.defaults(c)
    def chk(pres, kind, arg, want, what):
        nonlocal n; n += 1
        if any(f(pres) for f in c.skip): return
        if want == "node" and c.invalid(pres, kind): want = "invalid"
        ip, outs = upf.call(F, c, pres, kind)
        got = outcome(ip, outs)
        if ip.nulls: bad.append((arg, "%s: null dereference of %s in %s" % (what, ip.nulls[0][0], ip.nulls[0][1])))
        elif got != {want}: bad.append((arg, "%s: returns %s, expected %s" % (what, "/".join(sorted(got)) or "nothing (aborts)", want)))
    full = {a.name: 1 for a in c.all()}
    for pres0 in (base, full):
        chk(pres0, {}, "all", "node", "valid arguments")
        for a in c.all():
            if a.kind == "str":
                if a.req:
                    for v, d in ((NULLSTR, "empty"), (Rec(C0, {"Ptr": ("str", "x"), "Len": C0}), "zero length"), (Rec(C0, {"Ptr": C0, "Len": ("c", 3)}), "null text")):
                        chk(dict(pres0, **{a.name: v}), {}, a.name, "invalid", "%s %s" % (a.name, d))
                else:
                    p = dict(pres0); p.pop(a.name, None); chk(p, {}, a.name, "node", "%s absent" % a.name)
            elif a.kind == "code":
                p = dict(pres0); p.pop(a.name, None)
                chk(p, {}, a.name, "invalid" if a.req else "node", "%s absent" % a.name)
                p = dict(pres0); p[a.name] = 1
                for k in kinds:
                    if k in a.allow: chk(p, {a.name: k}, a.name, "node", "%s of kind %s" % (a.name, k))
                    elif a.strict: chk(p, {a.name: k}, a.name, "invalid", "%s of kind %s" % (a.name, k))
            elif a.kind in ("int", "arr"):
                p = dict(pres0); p.pop(a.name, None); chk(p, {}, a.name, "node", "%s defaulted" % a.name)
    return fn, n, bad

def check(rep):
    for cfg in ["nofatal"] + (["linux_nofatal"] if rep.tier == "thorough" else []):
        F = gx.extract(cfg); tot = 0
        for fn, n, bad in gx.pmap(one, [(cfg, c.fn) for c in upf.TABLE]):
            tot += n; rep.ok(n - len(bad)); rep.sample({"function": fn, "argument combinations": n})
            seen = {}
            for arg, d in bad: seen.setdefault(arg, []).append(d)
            for arg, ds in seen.items():
                rep.bad("%s:%s" % (fn, arg), F.at(F.fn(fn)), "argument contract", "%s: %s%s" % (fn, ds[0], " (+%d more)" % (len(ds) - 1) if len(ds) > 1 else ""))
        rep.need("calls %s" % cfg, tot, 2000)
