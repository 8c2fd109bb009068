"""Front-end type checking (clang -fsyntax-only, no code is generated or run) of the library's sources for every supported platform target
and documented option, plus an explicit-instantiation witness that forces every container operation to be type checked.  An error whose
location is in /repo is a violation identified by the configuration."""
import os, re, subprocess, tempfile, concurrent.futures as cf, gx

LEVEL = "other"
TARGETS = {"windows": "x86_64-w64-mingw32", "linux": "x86_64-linux-gnu"}
FLAGS = "-fms-extensions -fno-exceptions -std=c++17 -w -fdelayed-template-parsing -fsyntax-only -ferror-limit=0 -DGEN_TIME".split()
OPTIONS = {  # documented / platform.hpp, types.hpp, debug.hpp, timing.cpp, Readme options
    "default": [], "debug": ["GEN_BUILD_DEBUG=1"], "release": ["GEN_BUILD_DEBUG=0"], "no-fatal": ["GEN_DONT_USE_FATAL"],
    "debug no-fatal": ["GEN_BUILD_DEBUG=1", "GEN_DONT_USE_FATAL"], "benchmark": ["GEN_BENCHMARK"],
    "execution expressions": ["GEN_EXECUTION_EXPRESSION_SUPPORT=1"], "no macro typedef": ["GEN_PARSER_DISABLE_MACRO_TYPEDEF"],
    "no macro fn signatures": ["GEN_PARSER_DISABLE_MACRO_FUNCTION_SIGNATURES"], "code constants": ["GEN_DEFINE_LIBRARY_CODE_CONSTANTS"],
    "invalid code not allowed": ["GEN_DONT_ALLOW_INVALID_CODE"], "static link": ["GEN_STATIC_LINK"], "dyn link": ["GEN_DYN_LINK"],
    "dyn export": ["GEN_DYN_LINK", "GEN_DYN_EXPORT"], "expose backend": ["GEN_EXPOSE_BACKEND"], "strong code types": ["GEN_ENFORCE_STRONG_CODE_TYPES"],
    "c-like": ["GEN_C_LIKE_CPP=1"], "c-like strong constants (bootstrap)": ["GEN_C_LIKE_CPP=1", "GEN_ENFORCE_STRONG_CODE_TYPES", "GEN_DEFINE_LIBRARY_CODE_CONSTANTS"],
    "c-like no-fatal": ["GEN_C_LIKE_CPP=1", "GEN_DONT_USE_FATAL"], "no parser analysis": ["GEN_PARSER_DISABLE_ANALYSIS=1"],
    "heap analysis": ["GEN_HEAP_ANALYSIS"], "no namespace": ["GEN_DONT_USE_NAMESPACE=1"], "module core": ["GEN_MODULE_CORE"], "csv debug": ["GEN_CSV_DEBUG"],
    "no time guard": ["GEN_DONT_ENFORCE_GEN_TIME_GUARD"],
}
CLIENTS = ["base/base.cpp", "gen_segmented/segmented.cpp", "gen_singleheader/singleheader.cpp", "gen_unreal_engine/unreal.cpp", "gen_c_library/c_library.cpp"]
WITNESS = """#include "gen.cpp"
%s
struct GxA { int v; }; struct GxB { char c[24]; void* p; };
template struct Array<GxA>; template struct Array<GxB>; template struct Array<char*>;
%s
%s"""
HT = "template struct HashTable<GxA>; template struct HashTable<GxB>;"

def run(job):
    name, cmd, text = job
    src = None
    if text is not None:
        fd, src = tempfile.mkstemp(suffix=".cpp"); os.write(fd, text.encode()); os.close(fd); cmd = cmd + [src]
    try: p = subprocess.run(cmd, capture_output=True, text=True)
    finally:
        if src: os.unlink(src)
    return name, p.returncode, p.stderr

def check(rep):
    jobs = []
    for tn, t in TARGETS.items():
        base = ["clang++-18", "--target=" + t] + FLAGS + ["-I", os.path.join(gx.REPO, "base")]
        for on, o in OPTIONS.items():
            jobs.append(("%s / %s" % (tn, on), base + ["-D" + x for x in o], '#include "gen.cpp"\n'))
            if rep.tier == "thorough" or on in ("default", "no-fatal", "strong code types"):
                for o2 in ([[], ["GEN_C_LIKE_CPP=1"]] if rep.tier == "thorough" else [[]]):
                    if o2 and any(x.startswith("GEN_C_LIKE") for x in o): continue
                    if o2: jobs.append(("%s / %s / c-like" % (tn, on), base + ["-D" + x for x in o + o2], '#include "gen.cpp"\n'))
        if rep.tier == "thorough":
            names = list(OPTIONS)
            for i, a in enumerate(names):
                for b in names[i + 1:]:
                    if "no namespace" in (a, b) and "heap analysis" in (a, b): pass
                    jobs.append(("%s / %s + %s" % (tn, a, b), base + ["-D" + x for x in dict.fromkeys(OPTIONS[a] + OPTIONS[b])], '#include "gen.cpp"\n'))
        for on, o in (("default", []), ("c-like", ["GEN_C_LIKE_CPP=1"])):
            ns = ("namespace gen {", HT if True else "", "}")
            jobs.append(("%s / container instantiation / %s" % (tn, on), base + ["-D" + x for x in o], WITNESS % ns))
        for c in CLIENTS:
            jobs.append(("%s / %s" % (tn, c), base + ["-DGEN_BUILD_DEBUG=1", os.path.join(gx.REPO, c)], None))
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(run, jobs))
    for name, rc, err in res:
        if rc == 0: rep.ok(); rep.sample(name); continue
        errs = [l for l in err.splitlines() if " error: " in l]
        if not errs: raise gx.AnalysisBroken("%s: compiler failed without a diagnostic: %s" % (name, err[-400:]))
        l = errs[0].replace(gx.REPO + "/", "")
        m = re.match(r"(.*?:\d+):\d+: (?:fatal )?error: (.*)", l)
        rep.bad("config:%s" % name, m.group(1) if m else "?", "type-check", "%s: %s (%d errors)" % (name, m.group(2) if m else l, len(errs)))
    rep.need("configurations", len(jobs), 50)
    rep.assumptions += ["clang 18 with Microsoft-style delayed template parsing, as the repository's build uses", "macOS, BSD and other SDKs are not installed and not covered",
                        "GEN_USE_NEW_TYPENAME_PARSING (documented as work in progress) and GEN_ROLL_OWN_DEPENDENCIES (user supplies the dependencies) are excluded"]
