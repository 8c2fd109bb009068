"""Progress of the parsing loops: every loop of every parsing routine is interpreted on an unconstrained token stream, from every context (entry token
kinds, tag) in which the parser reaches the routine; an iteration that returns to the loop head having consumed no token and changed nothing else can
repeat for ever.  Consumption summaries of the routines are a least fixpoint, so a loop relies on a callee only for tokens that callee must consume."""
import gx, pspec, progress
LEVEL = "bounded"

def check(rep):
    cfg = "nofatal"; F = gx.extract(cfg)
    if rep.tier == "thorough": progress.ProgInterp.limit = 60; progress.ProgInterp.hlimit = 40
    res, rounds = progress.solve(cfg, F)
    names = {v: k for k, v in F.enumvals("TokType").items()}; ct = {v: k for k, v in F.enumvals("CodeType").items()}
    heads = {}; bad = {}; iters = rets = 0
    for key, r in sorted(res.items(), key=str):
        fn, arg, ft = key; iters += r[6]; rets += r[5]
        for h in r[4]: heads.setdefault(h, []).append(key)
        for (f, line, end), d in r[2].items(): bad.setdefault((f, end), (line, d, key))
    for (fn, line), ks in sorted(heads.items(), key=str):
        rep.ok(len(ks)); rep.sample({"loop": fn, "at": F.at(line), "contexts": len(ks)})
    for (f, end), (line, d, key) in sorted(bad.items(), key=str):
        ctx = key[0] + (" (%s)" % ct.get(key[1], key[1]) if key[1] is not None else "") + (" entered on " + ", ".join(names.get(i, str(i)) for i in key[2][:4]) if key[2] else "")
        rep.bad("%s:%s" % (f, "end of input" if end else "tokens left"), F.at(line), "loops consume input",
                "the loop in %s can iterate without consuming a token %s (%s), reached from %s" % (f, "after the last token" if end else "while tokens are left", d, ctx))
    rep.assumptions += ["loops are followed up to 5 times from states that cover every pair of facts", "lexing itself, and loops over nodes already built, are not part of this check"]
    rep.need("routine contexts", len(res), 100); rep.need("loops", len(heads), 40); rep.need("iterations interpreted", iters, 400); rep.need("return paths", rets, 1500)
