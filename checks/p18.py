"""Tag analysis of the parsing routines: on every path of every routine (interpreted on an unconstrained token stream) the returned value is the null
code, the invalid code or a node whose kind is one of those the routine stands for; a definition kind comes with a body and a forward kind without."""
import gx, pspec, parsei
LEVEL = "bounded"
NOBODYKIND = {"CT_Constructor_Fwd", "CT_Destructor_Fwd"}      # = default / = delete are kept in Body

def one(job):
    cfg, fn, arg, first, thorough = job
    F = gx.extract(cfg)
    if thorough: parsei.ParserInterp.limit = 60; parsei.ParserInterp.hlimit = 40
    ip = pspec.interp(F, fn, arg=arg, first=first, names=False)
    if pspec.SPEC[fn]["ret"] != "code": return fn, 0, {}, []
    allowed = {ip.ct[t] for t in (pspec.BYARG[fn][arg] if arg else pspec.BYFIRST[fn][first] if first else pspec.SPEC[fn]["tags"])}; name = {v: k for k, v in ip.ct.items()}
    bad = {}; n = 0; seen = set()
    BODY = parsei.fkey(F, "Body")
    for s, v, node in ip.rets:
        n += 1; where = F.at(node["l"])
        if v in (parsei.INVALID, parsei.NULLCODE, parsei.C0): seen.add("none"); continue
        if ip.root_of(v) is None:
            bad.setdefault("unknown", (where, "returns a value that is not known to be a node")); continue
        r = ip.root_of(v)
        tags = ip.tags_of(s, r) if r else None
        if tags is None: bad.setdefault("untagged", (where, "returns a node whose kind is not determined")); continue
        seen |= {name.get(t, str(t)) for t in tags}
        if fn in pspec.WATCH:
            w, yes, no = pspec.WATCH[fn]; al = {ip.ct[t] for t in (yes if s.x.get("ate") else no)}
            for t in (tags & allowed) - al: bad.setdefault("%s %s" % (name[t], "with" if s.x.get("ate") else "without"), (where, "returns a node of kind %s %s a %s token" % (name[t], "after" if s.x.get("ate") else "without", w)))
        for t in tags - allowed:
            bad.setdefault(name.get(t, str(t)), (where, "returns a node of kind %s, a %s is expected" % (name.get(t, t), pspec.SPEC[fn]["what"])))
        if ("H", r) in s.mem and s.x.get(("lab", r)) == "a new node" and len(tags) == 1:
            t = name[next(iter(tags))]; base = t[:-4] if t.endswith("_Fwd") else t
            if base + "_Fwd" in ip.ct:
                b = ip.project(s.mem[("H", r)], BODY); absent = b in (parsei.C0, parsei.NULLCODE)
                if t == base and absent: bad.setdefault(t + " body", (where, "returns a definition (%s) without a body" % t))
                if t != base and not absent:
                    bn = ip.nodes_in(b); bt = ip.tags_of(s, bn[0]) if bn else None
                    if not (t in NOBODYKIND and bt == {ip.ct["CT_Untyped"]}): bad.setdefault(t + " body", (where, "returns a forward declaration (%s) that has a body" % t))
    return fn + (" (%s)" % arg if arg else ""), n, bad, sorted(seen)

def check(rep):
    cfg = "nofatal"; th = rep.tier == "thorough"
    F = gx.extract(cfg); tot = 0
    rep.assumptions += ["loops are followed up to 4 times from states that cover every pair of facts", "parse_preprocess_cond is entered on a conditional directive"]
    for fn, n, bad, seen in gx.pmap(one, [(cfg, fn, a, b, th) for fn in pspec.ORDER if fn in F.byname for a in pspec.BYARG.get(fn, [None]) for b in pspec.BYFIRST.get(fn, [None])]):
        tot += n; rep.ok(n); rep.sample({"routine": fn, "return paths": n, "kinds": seen})
        for k, (where, d) in bad.items(): rep.bad("%s:%s" % (fn, k), where, "kind of the parsed node", "%s %s" % (fn, d))
    rep.need("routines", len([f for f in pspec.SPEC if f in F.byname]), 60)
    rep.need("return paths", tot, 2500)
