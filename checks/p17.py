"""Lost-value analysis of the parsing routines: each routine is interpreted on an unconstrained token stream, the other parsing routines being opaque
producers of nodes; every node, identifier, specifier list and export marker obtained on a path that returns a node must be reachable from that node,
have been put in a list or handed to another routine, or be covered by a text the routine stretches over it."""
import gx, pspec, parsei
LEVEL = "bounded"

def reviewed(ip, fn, s, v, label):
    """combinations of facts the token grammar excludes"""
    if fn == "parser_parse_typedef":
        n = ip.nodes_in(v)[0]; rec = s.mem[("H", n)]
        if label.startswith("the array expression"):
            u = ip.nodes_in(ip.project(rec, parsei.fkey(ip.F, "UnderlyingType")))
            if u and ip.tags_of(s, u[0]) is not None and ip.ct["CT_Typename"] not in ip.tags_of(s, u[0]):
                return "brackets after an in-place definition make the routine take the type branch"
        if label == "an identifier" and ip.project(rec, parsei.fkey(ip.F, "IsFunction")) == parsei.C1:
            return "the name of a function type is part of its type text"
    return None

def one(job):
    cfg, fn, thorough = job
    F = gx.extract(cfg)
    if thorough: parsei.ParserInterp.limit = 60; parsei.ParserInterp.hlimit = 40
    ip = pspec.interp(F, fn)
    bad = {}; n = 0; comps = 0; excl = set()
    for s, v, node in ip.rets:
        if v == parsei.INVALID or not ip.nodes_in(v): continue
        n += 1; comps += sum(1 for k in s.x if type(k) is tuple and k[0] in ("lab", "tlab"))
        for label, last in ip.lost_at(s, v):
            why = reviewed(ip, fn, s, v, label)
            if why: excl.add(label + ": " + why); continue
            bad.setdefault((label, last), F.at(node["l"]))
    return fn, n, comps, bad, sorted(excl), len(ip.cut_loops), len(ip.rets)

def check(rep):
    cfg = "nofatal"; th = rep.tier == "thorough"
    F = gx.extract(cfg); tot = comps = 0
    rep.assumptions += ["a routine named in lib/pspec.py yields a node of one of the kinds listed there (decided by P18), nothing, or the invalid code",
                        "loops are followed up to 4 times from states that cover every pair of facts"]
    for fn, n, c, bad, excl, cut, allr in gx.pmap(one, [(cfg, fn, th) for fn in pspec.ORDER if fn in F.byname]):
        tot += n; comps += c; rep.ok(n); rep.sample({"routine": fn, "paths that return a node": n, "components tracked on them": c, "all return paths": allr, "loops cut at the bound": cut})
        for x in excl: rep.notes.append("%s: %s" % (fn, x))
        for (label, last), where in bad.items():
            rep.bad("%s:%s:%s" % (fn, label, last), where, "parsed component lost", "%s: %s is neither in the returned node nor handed on (last routine called: %s)" % (fn, label, last or "none"))
    rep.need("routines", len([f for f in pspec.SPEC if f in F.byname]), 60)
    rep.need("paths", tot, 1500); rep.need("components", comps, 3000)
