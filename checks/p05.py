"""Compiler-computed record layouts: every typed view AST_<Kind> has the size of AST and each named field sits at the offset and with the size
of the same-named field of AST (renamed fields through a fixed alias map), no two named fields of one view overlap, and every Code<Kind> wrapper
is exactly one pointer to its own view.  Evaluated for each target ABI and interface configuration; no source text is matched."""
import gx
LEVEL = "proof"
ALIAS = {"Tok": "Token", "SpecsFuncSuffix": "SuffixSpecs"}
CFGS = ["base", "cpp", "linux", "unreal"]

def check(rep):
    nviews = nfields = nwrap = 0
    for cfg in CFGS + (["nofatal", "single", "clib", "linux_nofatal"] if rep.tier == "thorough" else []):
        F = gx.extract(cfg); R = F.records
        if "AST" not in R: raise gx.AnalysisBroken("AST record not found")
        ast = R["AST"]; A = {f["n"]: (f["off"], f["size"]) for f in ast["f"]}
        for n, r in R.items():
            if n == "AST" or not n.startswith("AST_"): continue
            nviews += 1
            if r["size"] != ast["size"]:
                rep.bad("%s:size" % n, F.at(r), "view-size", "%s is %d bytes, AST is %d (%s)" % (n, r["size"], ast["size"], cfg))
            else: rep.ok()
            named = []
            for f in r["f"]:
                if not f["n"] or f["n"].startswith("_PAD"): continue
                nfields += 1
                a = A.get(f["n"]) or A.get(ALIAS.get(f["n"], ""))
                if a is None: rep.bad("%s.%s:unknown" % (n, f["n"]), F.at(f), "view-field", "%s.%s has no field of that name in AST" % (n, f["n"]))
                elif a != (f["off"], f["size"]):
                    rep.bad("%s.%s" % (n, f["n"]), F.at(f), "view-field", "%s.%s at offset %d size %d, AST has it at %d size %d (%s)" % (n, f["n"], f["off"], f["size"], a[0], a[1], cfg))
                else: rep.ok(); named.append(f)
            for i, f in enumerate(named):
                for g in named[i + 1:]:
                    if f["off"] < g["off"] + g["size"] and g["off"] < f["off"] + f["size"]:
                        rep.bad("%s.%s/%s:overlap" % (n, f["n"], g["n"]), F.at(g), "view-overlap", "%s.%s and %s.%s share storage" % (n, f["n"], n, g["n"]))
                    else: rep.ok()
        seen = {}
        for n, r in R.items():
            if not n.startswith("Code") or len(r["f"]) != 1 or r["f"][0]["n"] != "ast": continue
            nwrap += 1
            t = F.type(r["f"][0]["t"])
            if r["size"] != 8 or t["k"] != "ptr": rep.bad("%s:wrapper" % n, F.at(r), "wrapper", "%s is not exactly one pointer" % n)
            elif t["s"].startswith("AST_") and t["s"] in seen: rep.bad("%s:view" % n, F.at(r), "wrapper", "%s points to %s, the view of %s" % (n, t["s"], seen[t["s"]]))
            else: rep.ok(); seen[t["s"]] = n
    rep.need("views", nviews, 25 * len(CFGS)); rep.need("fields", nfields, 200 * len(CFGS)); rep.need("wrappers", nwrap, 20)
