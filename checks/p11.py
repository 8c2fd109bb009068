"""Each body builder, in its variadic, array and overloaded form, is interpreted for every entry kind (and an absent entry) at every position of a
three-entry list, for entry counts 0..3, negative counts and a null array.  The oracle is the table of kinds each scope refuses
(lib/scope_rules.json); the accepted result must carry the scope's tag and link the given entries in order."""
import json, os
import gx, upf, astm
from absint import Rec, C0
from astm import fkey, code, objname, NULLCODE, Obj
LEVEL = "exhaustive"
RULES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(astm.__file__)), "scope_rules.json")))
TAGS = {"class": "Class", "struct": "Struct", "function": "Function", "global": "Global", "export": "Export", "extern_link": "Extern_Linkage", "namespace": "Namespace", "enum": "Enum", "union": "Union"}
OPEN = {"CT_Invalid", "CT_Extern_Linkage_Body", "CT_Export_Body", "CT_Union_Body", "CT_Parameters_Define"}     # not addressed by any scope's table

def entry(F, st, name, kind):
    if kind is None: return NULLCODE
    o = Obj(F, name, kind, Name=name)
    if kind.endswith("_Body"):
        Obj(F, name + ".inner", "CT_Untyped", Name=name + ".inner", Content=name + ".inner", Parent=code(name)).put(st)
        o.set("Front", code(name + ".inner")); o.set("Back", code(name + ".inner")); o.set("NumEntries", 1)
    elif kind == "CT_Parameters" or kind == "CT_Parameters_Define":
        o.set("NumEntries", 1)
        if kind == "CT_Parameters":
            Obj(F, name + ".type", "CT_Typename", Name=name + ".type").put(st); Obj(F, name + ".value", "CT_Untyped", Content=name + ".value").put(st)
            o.set("ValueType", code(name + ".type")); o.set("Value", code(name + ".value"))
    o.put(st)
    return code(name)

def chain(ip, st, head):
    """names of the nodes reached over Next"""
    out = []; cur = head; F = ip.F
    while objname(cur) and len(out) < 12:
        r = st.mem[("H", objname(cur))]
        out.append((objname(cur), ip.text_of_str(st, r.d.get(fkey(F, "Name"), astm.NULLSTR)), r))
        cur = r.d.get(fkey(F, "Next"), C0)
    return out

def invoke(F, f, kinds, num=None, nullarr=False):
    ip = upf.UpfInterp(F); st = ip.base_state()
    vals = [entry(F, st, "e%d" % i, k) for i, k in enumerate(kinds)]
    num = len(kinds) if num is None else num
    if f.get("var"): args = (("c", num),) + tuple(vals)
    else:
        st.mem[("H", "arr")] = Rec(C0, {("i", ("c", i)): v for i, v in enumerate(vals)})
        st.x["arrlen"] = len(vals)
        args = (("c", num), C0 if nullarr else ("addr", ("H", "arr"), (("i", C0),)))
    return ip, [(s, ip.devalue(s, v)) for s, v in ip.run(f, args, st)]

def forms(F, base):
    v, a = upf.overloads(F, base)
    return [(f, base) for f in v] + [(f, base + " (array overload)") for f in a] + [(f, base + "_arr") for f in upf.overloads(F, base + "_arr")[1]]

def verdict(ip, outs):
    if ip.nulls: return "null dereference of %s in %s" % ip.nulls[0]
    if ip.oob: return "reads %s" % ip.oob[0]
    r = {objname(v) or "none" for s, v in outs}
    if r == {"INVALID"}: return "refused"
    if len(r) == 1 and len(outs) == 1 and list(r)[0].startswith("new"): return "accepted"
    return "undetermined (%s)" % "/".join(sorted(r)) if r else "no result"

def one(job):
    cfg, scope = job
    F = gx.extract(cfg); n = 0; bad = []
    CT = F.enumvals("CodeType"); allk = [k for k in CT if k.startswith("CT_") and k not in ("CT_NumTypes", "CT_UnderlyingType")]
    base = "def_%s_body" % scope; fill = "CT_Untyped"
    refused = (lambda k: k not in ("CT_Untyped", "CT_Comment")) if scope in ("enum", "union") else (lambda k, s=set("CT_" + x for x in RULES[scope]) - ({"CT_Global_Body"} if scope == "global" else set()): k in s)
    for f, nm in forms(F, base):
        def chk(kinds, want, what, **kw):
            nonlocal n; n += 1
            ip, outs = invoke(F, f, kinds, **kw)
            got = verdict(ip, outs)
            if got != want: bad.append((nm, what, "%s, expected %s" % (got, want))); return
            if want == "accepted":
                st, v = outs[0]; r = st.mem[("H", objname(v))].d
                if r.get(fkey(F, "Type")) != ("c", CT["CT_%s_Body" % TAGS[scope]]): bad.append((nm + ":tag", what, "the body is not tagged %s_Body" % TAGS[scope]))
                names = [x[1] for x in chain(ip, st, r.get(fkey(F, "Front"), C0))]
                exp = ["e%d.inner" % i if k.endswith("_Body") else "e%d" % i for i, k in enumerate(kinds)]
                if names != exp or r.get(fkey(F, "NumEntries")) != ("c", len(exp)): bad.append((nm + ":entries", what, "entries are %s (count %s), expected %s" % (names, r.get(fkey(F, "NumEntries")), exp)))
        for k in (0, -1): chk([], "refused", "%d entries" % k, num=k)
        if not f.get("var"): chk([], "refused", "a null array", num=2, nullarr=True)
        for k in (1, 2, 3): chk([fill] * k, "accepted", "%d entries" % k)
        for pos in range(3):
            for k in allk:
                if k in OPEN: continue
                ks = [fill] * 3; ks[pos] = k
                chk(ks, "refused" if refused(k) else "accepted", "a %s as entry %d" % (k, pos))
            ks = [fill] * 3; ks[pos] = None
            chk(ks, "refused", "an absent entry %d" % pos)
    return base, n, bad

def one_params(job):
    cfg, base = job
    F = gx.extract(cfg); n = 0; bad = []
    CT = F.enumvals("CodeType"); allk = [k for k in CT if k.startswith("CT_") and k not in ("CT_NumTypes", "CT_UnderlyingType")]
    kind = "CT_Parameters" if base == "def_params" else "CT_Parameters_Define"
    for f, nm in forms(F, base):
        def chk(kinds, want, what, **kw):
            nonlocal n; n += 1
            ip, outs = invoke(F, f, kinds, **kw)
            got = verdict(ip, outs)
            if got != want: bad.append((nm, what, "%s, expected %s" % (got, want))); return
            if want == "accepted":
                st, v = outs[0]; ch = chain(ip, st, v); r = ch[0][2].d
                if [x[1] for x in ch] != ["e%d" % i for i in range(len(kinds))] or r.get(fkey(F, "NumEntries")) != ("c", len(kinds)):
                    bad.append((nm + ":entries", what, "entries are %s (count %s)" % ([x[1] for x in ch], r.get(fkey(F, "NumEntries"))))); return
                if kind == "CT_Parameters":
                    for i, x in enumerate(ch):
                        for fld in ("ValueType", "Value"):
                            want_o = "e%d.%s" % (i, "type" if fld == "ValueType" else "value")
                            if objname(x[2].d.get(fkey(F, fld), C0)) != want_o: bad.append((nm + ":" + fld, what, "entry %d lost its %s" % (i, fld)))
                if any(x[2].d.get(fkey(F, "Type")) != ("c", CT[kind]) for x in ch): bad.append((nm + ":tag", what, "an entry is not tagged %s" % kind))
        for k in (0, -1): chk([], "refused", "%d entries" % k, num=k)
        if not f.get("var"): chk([], "refused", "a null array", num=2, nullarr=True)
        for k in (1, 2, 3, 4): chk([kind] * k, "accepted", "%d entries" % k)
        for pos in range(3):
            for k in allk:
                if k == kind: continue
                ks = [kind] * 3; ks[pos] = k
                chk(ks, "refused", "a %s as entry %d" % (k, pos))
            ks = [kind] * 3; ks[pos] = None
            chk(ks, "refused", "an absent entry %d" % pos)
    return base, n, bad

def job(j): return one_params(j) if j[1] in ("def_params", "def_define_params") else one(j)

def check(rep):
    for cfg in ["nofatal"] + (["linux_nofatal"] if rep.tier == "thorough" else []):
        F = gx.extract(cfg); tot = 0
        for fn, n, bad in gx.pmap(job, [(cfg, s) for s in list(TAGS) + ["def_params", "def_define_params"]]):
            tot += n; rep.ok(max(0, n - len(bad))); rep.sample({"builder": fn, "calls": n})
            seen = {}
            for k, w, d in bad: seen.setdefault(k, []).append((w, d))
            for k, ds in seen.items():
                fs = [f for f in F.byname[k.split(" ")[0].split(":")[0]]]
                rep.bad(k, F.at(fs[-1]), "scope table", "%s given %s: %s%s" % (k, ds[0][0], ds[0][1], " (+%d more)" % (len(ds) - 1) if len(ds) > 1 else ""))
        rep.need("builder calls %s" % cfg, tot, 4000)
