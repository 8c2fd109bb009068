"""Every tag of CodeType is pushed through code_to_strbuilder_ref and through the by-value and by-reference serializers that accept it, on nodes
with all and with no optional components; the emitted sequence must be that of the tag's own kind, so a tag dispatched to another kind's (or form's)
serializer, falling through, or dropped shows as a different sequence.  The set of tags is closed: a tag without a grammar entry breaks the analysis."""
import gx, serial, absint
LEVEL = "proof"
UNREPORTED = {"CT_Invalid": "Invalid"}

def pick(k):
    xs = list(k.combos())
    key = lambda x: sum(1 for v in x.values() if v not in (0, None, "none"))
    s = sorted(xs, key=key)
    r = [s[0], s[-1], s[len(s) // 2], s[len(s) // 4], s[3 * len(s) // 4]]
    out = []
    for x in r:
        if x not in out: out.append(x)
    return out

def check(rep):
    for cfg in ["base"] + (["cpp", "nofatal", "unreal"] if rep.tier == "thorough" else []):
        F = gx.extract(cfg)
        tags = [t for t in F.enumvals("CodeType") if t.startswith("CT_") and "NumTypes" not in t and "UnderlyingType" not in t and "Defs" not in t]
        bykind = {}
        for k in serial.KINDS: bykind.setdefault(k.tag, []).append(k)
        nd = 0
        for t in tags:
            if t == "CT_Invalid":
                f = F.fn("code_to_strbuilder_ref")
                k = serial.Kind("invalid", t, {}, lambda F, st, x, o: None, None)
                outs, nulls, aborts, vis = serial.run(F, k, {}, "code_to_strbuilder_ref")
                if not nulls and (aborts or (outs and all("nvalid" in o for o in outs))): rep.ok()
                else: rep.bad("CT_Invalid", F.at(f), "reported", "an invalid node is emitted as %r instead of being reported" % (outs,))
                continue
            if t not in bykind:
                f = F.fn("code_to_strbuilder_ref")
                rep.bad(t, F.at(f), "tag-known", "%s has no serialization grammar: an unknown tag would be dropped silently" % t); continue
            for k in bykind[t]:
                if k.name == "variable_next": continue
                ents = ["code_to_strbuilder_ref", "code_to_strbuilder"] + [e for e in k.entries]
                base = k.entries[0] if k.entries else None
                if base and k.tag not in ("CT_Export_Body", "CT_Using_Namespace") and base.endswith("_to_strbuilder"):
                    for suf in ("_ref",):
                        if F.fn(base + suf, False): ents.append(base + suf)
                for e in dict.fromkeys(ents):
                    f = F.fn(e, False)
                    if f is None: continue
                    for x in pick(k):
                        nd += 1
                        outs, nulls, aborts, vis = serial.run(F, k, x, e)
                        if nulls: d = "null dereference in %s" % nulls[0][2]
                        elif not outs: d = "emits nothing or aborts"
                        else: d = serial.compare(F, k, x, outs)
                        if d is None and not any(o.strip() for o in outs) and serial.expected(F, k, x).strip(): d = "emits nothing"
                        if d: rep.bad("%s:%s" % (t, e), F.at(f), "dispatch", "%s on %s %s" % (e, t, d))
                        else: rep.ok()
                rep.sample({"tag": t, "entries": list(dict.fromkeys(ents))})
        rep.cov["dispatches %s" % cfg] = nd
        rep.need("tags", len(tags), 55); rep.need("dispatches", nd, 300)
