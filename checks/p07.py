"""For every node kind and every presence combination of its optional components the serializer is interpreted abstractly (component text is an
opaque placeholder; calls are followed into helpers; child serializers stand for their node) and the emitted sequence of literals and components
is compared, token by token, with the sequence C++ requires.  Layout whitespace is ignored except where it separates words or ends a directive.
List components are explored with 0..3 entries; inline comments may stand anywhere but must appear once."""
import gx, serial
LEVEL = "bounded"

def entry_points(F, k):
    return [e for e in (k.entries or []) if F.fn(e, False)] or ["code_to_strbuilder_ref"]

def one(job):
    cfg, kn, part, parts = job
    F = gx.extract(cfg); k = next(k for k in serial.KINDS if k.name == kn)
    n = 0; bad = []; fns = set()
    for i, x in enumerate(k.combos()):
        if i % parts != part: continue
        n += 1
        en = entry_points(F, k)[0]
        outs, nulls, aborts, vis = serial.run(F, k, x, en)
        fns |= vis
        if nulls: d = "null dereference of %s in %s" % (nulls[0][1], nulls[0][2])
        elif aborts or not outs: d = "aborts or emits nothing"
        else: d = serial.compare(F, k, x, outs)
        if d: bad.append((x, d))
    return kn, n, bad, sorted(fns)

def check(rep):
    total = 0; fns = set()
    for cfg in ["base"] + (["cpp", "nofatal", "unreal"] if rep.tier == "thorough" else []):
        F = gx.extract(cfg)
        jobs = []
        for k in serial.KINDS:
            big = len(list(k.combos())); parts = max(1, min(8, big // 150))
            jobs += [(cfg, k.name, p, parts) for p in range(parts)]
        for kn, n, bad, vis in gx.pmap(one, jobs):
            total += n; fns |= set(vis)
            rep.ok(n - len(bad))
            k = next(k for k in serial.KINDS if k.name == kn)
            for x, d in bad:
                f = F.fn(entry_points(F, k)[0])
                feats = ",".join("%s=%s" % (a, b) for a, b in x.items() if b not in (0, None, "none"))
                rep.bad("%s" % kn, F.at(f), "component-sequence", "%s with {%s} %s" % (k.tag, feats, d))
            if n: rep.sample({"kind": kn, "combinations": n, "functions": [v for v in vis if "to_strbuilder" in v]})
    rep.need("kinds", len(serial.KINDS), 60); rep.need("combinations", total, 8000); rep.need("serializer functions", len([f for f in fns if "to_strbuilder" in f]), 40)
