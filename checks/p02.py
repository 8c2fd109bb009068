"""Every Str built from a string literal: the (pointer, length) pair is constant-evaluated in the type-checked program and
the length compared with the literal's size.  Covers initialisers, tables, arguments, and pairs of member-wise assignments,
in all five generator translation units (which include the whole library and their own generators)."""
import gx

def pair(F, rep, node, where, seen):
    for x in gx.walk(node):
        if x["k"] == "init" and x.get("r") == "Str" and x["a"]:
            p = gx.strip(x["a"][0])
            if p["k"] != "str": continue
            key = (F.file(x["l"]), F.line(x["l"]), where, p["v"])
            if len(x["a"]) > 1:
                n = x["a"][1].get("cv")
                if n is None: continue
            else: n = 0
            yield x, p["v"], n
        if x["k"] == "blk":
            # member-wise construction: s.Ptr = "lit"; s.Len = N; among sibling statements of one block
            ptr = {}; 
            for s in x["b"]:
                e = s.get("e") if s and s["k"] == "expr" else None
                if not e or e["k"] != "asg" or e["o"] != "=": continue
                l = gx.strip(e["x"])
                if l["k"] != "mem" or l.get("r") != "Str": continue
                b = lkey(l["b"])
                if l["n"] == "Ptr":
                    v = gx.strip(e["y"]); ptr[b] = v["v"] if v["k"] == "str" else None
                elif l["n"] == "Len" and ptr.get(b) is not None and "cv" in e["y"]:
                    yield e, ptr[b], e["y"]["cv"]

def lkey(e):
    e = gx.strip(e)
    if e["k"] == "var": return ("v", e["id"])
    if e["k"] in ("mem",): return ("m", e["n"], lkey(e["b"]))
    if e["k"] in ("deref", "addr"): return (e["k"], lkey(e["e"]))
    return ("x", id(e))

def check(rep):
    total = 0
    seen = set()
    for cfg in ("base", "cpp", "single", "unreal", "clib"):
        F = gx.extract(cfg)
        n = 0
        for fn in F.functions + F.globals:
            body = fn.get("b") or fn.get("i")
            if not body: continue
            where = fn.get("q") or fn["n"]
            if fn.get("in"): where = fn["in"]
            for node, text, ln in pair(F, rep, body, where, seen):
                n += 1
                # {"" , 0} style defaults and exact lengths are fine
                at = F.at(node)
                k = (at, where, text, ln)
                if k in seen: continue
                seen.add(k)
                if ln == len(text):
                    rep.ok(); rep.sample("%s %s: %r len %d" % (at, where, text[:30], ln))
                else:
                    rep.bad("%s:%s:%s" % (where, text[:40], ln), at, "literal-length", "Str built from literal %r (%d characters) with length %d in %s" % (text[:60], len(text), ln, where))
        rep.need("literal constructions in %s" % cfg, n, 700)
        total += n
    rep.cov["units"] = 5
