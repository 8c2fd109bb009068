"""Format-string lint on resolved call sites.  Formatting functions are discovered from the call graph (every function that
forwards one of its parameters as the format of c_str_fmt_va together with its variadic arguments).  Each conversion of each
literal format is matched in order with the promoted argument type at that site.  The conversion grammar itself is checked
against the formatter: the conversion switch must read, per conversion, a va_arg of the class the grammar assigns."""
import re, gx
from gx import strip

CONV = re.compile(r"%(?P<flags>[-+# 0]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d*))?(?P<len>hh|h|ll|l|z|t)?(?P<c>SB|S|[duioxXfFgGaAcsrp%])?", re.S)

def conversions(fmt):
    """-> list of (spec text, class) or raises ValueError"""
    out = []; i = 0
    while True:
        i = fmt.find("%", i)
        if i < 0: return out
        m = CONV.match(fmt, i)
        c = m.group("c")
        if c is None: raise ValueError("unknown conversion '%s'" % fmt[i:i + 4])
        if m.group("width") == "*": out.append(("*", "i4"))
        if m.group("prec") == "*": out.append((".*", "i4"))
        ln = m.group("len") or ""
        if c in "duioxX": out.append((m.group(0), {"": "i4", "h": "i4", "hh": "i4", "l": "long", "ll": "i8", "z": "i8", "t": "i8"}[ln]))
        elif c in "fFgGaA": out.append((m.group(0), "f8"))
        elif c in "cr": out.append((m.group(0), "i4"))
        elif c == "s": out.append((m.group(0), "cs"))
        elif c == "S": out.append((m.group(0), "Str"))
        elif c == "SB": out.append((m.group(0), "SB"))
        elif c == "p": out.append((m.group(0), "ptr"))
        i = m.end()

def cls(F, t, longsz):
    ty = F.type(t); k = ty["k"]; c = ty["c"]
    if k in ("int", "bool", "char", "enum"):
        return "i8" if ty.get("size", 4) > 4 else "i4"
    if k == "float": return "f8"
    base = re.sub(r"\b(const|volatile|struct)\b", "", c).strip()
    if k == "ptr" or base.endswith("*") or k == "array" or "[" in base:
        b = re.sub(r"\[.*", "*", base).replace(" ", "")
        return "cs" if b in ("char*", "unsignedchar*", "signedchar*") else "ptr"
    b = base.split("::")[-1]
    if b == "Str": return "Str"
    if b == "StrBuilder": return "SB"
    return "rec:" + b

def compat(want, got, longsz):
    if want == got: return True
    if want == "long": return got == ("i8" if longsz == 8 else "i4")
    if want == "cs": return got in ("SB", "null")       # StrBuilder is one char*; same argument passing, NUL terminated
    if want == "ptr": return got in ("cs", "ptr", "null", "SB", "i8")
    return False

LIBC_FMT = {"printf": (0, 1), "fprintf": (1, 2), "sprintf": (1, 2), "snprintf": (2, 3), "vprintf": (0, None), "vfprintf": (1, None), "vsprintf": (1, None), "vsnprintf": (2, None)}
LIBC = set()
def formatters(F):
    """ids -> (fmt param index, first variadic index or None when it takes a va_list)"""
    out = {}
    base = F.fn("c_str_fmt_va")
    def pidx(f, e):
        e = strip(e)
        if e["k"] == "var" and e["s"] == "p":
            for i, p in enumerate(f["ps"]):
                if p["id"] == e["id"]: return i
        return None
    # the formatter's format parameter: the const char* one
    fi = next(i for i, p in enumerate(base["ps"]) if "const" in F.type(p["t"])["c"] and "char" in F.type(p["t"])["c"])
    out[base["id"]] = (fi, None)
    LIBC.clear()
    for f in F.functions:
        for c in gx.calls(f["b"]):
            if c.get("n") in LIBC_FMT and c.get("id") not in F.byid: out[c["id"]] = LIBC_FMT[c["n"]]; LIBC.add(c["id"])
    ch = True
    while ch:
        ch = False
        for f in F.functions:
            if f["id"] in out: continue
            for c in gx.calls(f["b"]):
                if c.get("id") in out and out[c["id"]][1] is None:
                    a = out[c["id"]][0]
                    if a < len(c["a"]):
                        j = pidx(f, c["a"][a])
                        if j is not None:
                            out[f["id"]] = (j, len(f["ps"]) if f.get("var") else None); ch = True
                        if c["id"] in LIBC: LIBC.add(f["id"])
                        break
    return out

def written(F, gid):
    if not hasattr(F, "_written"):
        F._written = set()
        for f in F.functions:
            for x in gx.walk(f["b"]):
                if x["k"] == "asg" or (x["k"] == "un" and x["o"] in ("++", "--")): y = strip(x.get("x") or x.get("e"))
                elif x["k"] == "addr": y = strip(x["e"])
                elif x["k"] == "idx" or (x["k"] == "icast" and F.type(x["t"])["k"] == "ptr" and F.type(x["e"].get("t", -1))["k"] == "array"): y = strip(x.get("b") or x["e"])
                else: continue
                if y["k"] == "var": F._written.add(y["id"])
    return gid in F._written

def literals(F, f, e, depth=0):
    """possible literal formats, 'param' when forwarded, None entries for unknown"""
    e = strip(e)
    if e["k"] == "call" and e.get("conv") and e["a"]: e = strip(e["a"][0])
    if e["k"] in ("init", "ctor") and e.get("a") and F.type(e.get("t", -1))["c"].split("::")[-1].replace("const ", "").strip() == "Str":
        for x in gx.walk(e):
            if x["k"] == "str": return [x["v"]]
    if e["k"] == "str": return [e["v"]]
    if e["k"] in ("null", "zero") or e.get("cv") == 0: return [""]
    if e["k"] == "cond": return literals(F, f, e["x"], depth) + literals(F, f, e["y"], depth)
    if e["k"] == "var" and depth < 3:
        if e["s"] == "p": return ["\0param"]
        if e["s"] in ("g", "s"):
            g = F.gid.get(e["id"])
            if g and "i" in g and not written(F, e["id"]): return literals(F, f, g["i"], depth + 1)
            return [None]
        out = []
        for x in gx.walk(f["b"]):
            if x["k"] == "decl":
                for v in x["v"]:
                    if v["id"] == e["id"] and v.get("i") is not None:
                        if F.type(v["t"])["k"] == "array" and strip(v["i"])["k"] != "str": return [None]
                        out += literals(F, f, v["i"], depth + 1)
            if x["k"] == "asg" and strip(x["x"])["k"] == "var" and strip(x["x"])["id"] == e["id"]:
                out += literals(F, f, x["y"], depth + 1)
            if x["k"] == "addr" and x["e"]["k"] == "var" and x["e"]["id"] == e["id"]: out.append(None)
        # a buffer passed elsewhere (array decaying) is not a constant
        return out or [None]
    return [None]

def check_grammar(rep, F):
    import re as _re
    f = F.fn("c_str_fmt_va")
    kinds = {}
    for n in gx.walk(f["b"]):
        if n["k"] == "vaarg": kinds[F.type(n["t"])["c"]] = kinds.get(F.type(n["t"])["c"], 0) + 1
    return kinds

def check(rep):
    nsites = 0; nconv = 0; seen = set()
    for cfg in ("nofatal", "base", "cpp", "single", "unreal", "clib"):
        F = gx.extract(cfg)
        fm = formatters(F)
        if cfg == "base":
            rep.need("formatting functions", len(fm), 8)
            rep.cov["formatting functions"] = len(fm)
        longsz = 4
        n = 0
        for f in F.functions:
            for c in gx.calls(f["b"]):
                if c.get("id") not in fm: continue
                fi, vi = fm[c["id"]]
                cal = F.byid.get(c["id"])
                if cal and cal.get("rec") and not cal.get("smeth"):      # the object is argument 0 of a member call
                    fi += 1; vi = vi + 1 if vi is not None else None
                if fi >= len(c["a"]): continue
                n += 1
                sig = (F.at(c), c["n"])
                lits = literals(F, f, c["a"][fi])
                for lit in lits:
                    if lit == "\0param":
                        if f["id"] in fm: rep.ok(); continue
                        lit = None
                    if lit is None:
                        rep.bad("%s:%s:nonliteral" % (f["n"], c["n"]), F.at(c), "non-literal-format", "the format passed to %s is computed text, its '%%' would be interpreted" % c["n"]); continue
                    if vi is None: rep.ok(); continue
                    try: want = conversions(lit)
                    except ValueError as ex:
                        rep.bad("%s:%s" % (f["n"], lit[:40]), F.at(c), "bad-conversion", str(ex)); continue
                    if c["id"] in LIBC and any(w in ("Str", "SB") or sp.endswith("r") for sp, w in want):
                        rep.bad("%s:%s" % (f["n"], lit[:60]), F.at(c), "bad-conversion", "conversion of the library's formatter passed to the C library's: %r" % lit); continue
                    args = c["a"][vi:]
                    got = []
                    for a in args:
                        s = strip(a)
                        got.append("null" if s["k"] == "null" else cls(F, a["t"], longsz))
                    nconv += len(want)
                    prob = None
                    if len(want) != len(got): prob = "format %r consumes %d arguments, %d given" % (lit, len(want), len(got))
                    else:
                        for i, ((sp, w), g) in enumerate(zip(want, got)):
                            if not compat(w, g, longsz): prob = "argument %d of format %r: %s consumes %s, given %s" % (i + 1, lit, sp, w, g); break
                    if prob: rep.bad("%s:%s" % (f["n"], lit[:60]), F.at(c), "format-args", prob)
                    else: rep.ok(); rep.sample("%s %r" % (F.at(c), lit[:50]))
        nsites += n
        rep.cov["call sites (%s)" % cfg] = n
    rep.need("formatting call sites", nsites, 1500)
    rep.cov["conversions matched"] = nconv
    grammar(rep, gx.extract("base"))

# ---- the formatter itself: which va_arg type each conversion reads -------------------------------------------------------
def grammar(rep, F):
    """constant propagation of one-conversion formats through the formatter (helpers inlined, output opaque)"""
    import fmtpe
    specs = ["%d", "%i", "%u", "%x", "%X", "%o", "%c", "%s", "%S", "%SB", "%f", "%g", "%p", "%r", "%%", "%ld", "%lu", "%lld", "%llu", "%zu", "%td",
             "%hd", "%hhd", "%hu", "%hhu", "%*d", "%.*s", "%-8s", "%5d", "%05d", "%.3s", "%*.*s", "%#x", "%+d", "%.*f", "%-*s"]
    for s in specs:
        want = conversions(s)
        got = fmtpe.va_types(F, s)
        exp = []
        for sp, w in want: exp.append("cs" if w == "SB" else w)
        g2 = [cls(F, t, 4) for t in got]
        if len(g2) != len(exp) or any(not compat(a, b, 4) for a, b in zip(exp, g2)):
            rep.bad("formatter:%s" % s, F.at(F.fn("c_str_fmt_va")), "formatter-grammar", "for %s the formatter reads %s, callers supply %s" % (s, g2, exp))
        else: rep.ok()
    rep.cov["conversion forms verified in the formatter"] = len(specs)
