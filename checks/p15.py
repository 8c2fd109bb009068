"""Abstract interpretation of the character scanning routines (the lexer with its helpers inline, and the formatting stripper): position and remaining
count are followed for every path to a fixpoint of every loop.  Every read of a character, every advance and every text handed on must lie inside the
text (or, for a read, on its terminator), the count and the position must stay in step, and no loop may come round again unchanged."""
import gx, lexi
LEVEL = "proof"

def scanner(F, name, nul, inline):
    ip = lexi.LexInterp(F, inline); ip.nul = nul
    for f in F.byname.get(name, []): ip.analyse(f)
    return ip

def one(job):
    cfg, name, nul = job
    import sys; sys.setrecursionlimit(100000)
    F = gx.extract(cfg)
    def inl(f):
        if f["n"].startswith("char_"): return True
        return name == "lex" and (F.at(f["l"]).split(":")[0].endswith("lexer.cpp") or any("LexContext" in F.type(p["t"])["c"] for p in f["ps"]))
    ip = scanner(F, name, nul, inl)
    return name, [(k[:4], o) for k, o in ip.sites.items()], dict(ip.stuck), dict(ip.heads), len(ip.rets)

def check(rep):
    cfg = "nofatal"; F = gx.extract(cfg)
    jobs = [(cfg, "lex", True), (cfg, "parser_strip_formatting", False)]
    tot = {"read": 0, "advance": 0, "text": 0, "step": 0}; loops = 0; states = 0
    for name, sites, stuck, heads, rets in gx.pmap(one, jobs):
        rep.need("return states of " + name, rets, 1)
        bad = {}
        for (fns, kind, line, chain), (n, nb, why) in sites:
            tot[kind] += 1
            if nb == 0: rep.ok()
            else:
                at = chain[-1] if chain and kind == "advance" else line
                bad.setdefault("%s:%s" % (fns, kind), (F.at(at), "%s %s" % (fns.replace(">", " > "), why)))
        for (fn, line), why in stuck.items(): bad.setdefault("%s:progress" % fn, (F.at(line), "the loop in %s can iterate without consuming a character %s" % (fn, why)))
        for (fn, line), (n, k) in sorted(heads.items(), key=str):
            loops += 1; states += n
            if (fn, line) not in stuck: rep.ok(); rep.sample({"loop": fn, "at": F.at(line), "states at its head": n})
        for k, (where, d) in sorted(bad.items()): rep.bad(k, where, "the scanner stays inside the text", d)
    rep.assumptions += ["the text given to lex is followed by one NUL character (the library's texts are literals or files read with a terminator)", "the length of the text is not negative"]
    rep.need("character reads", tot["read"], 60); rep.need("advances", tot["advance"], 40); rep.need("texts handed on", tot["text"], 25); rep.need("loops", loops, 20); rep.need("loop head states", states, 1000)
