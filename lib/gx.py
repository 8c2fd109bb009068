"""Fact loading: runs the libTooling extractor (gxt) on /repo's current sources and indexes the result."""
import json, os, subprocess, sys, tempfile, collections, functools

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GX_REPO", "/repo")
GXT = os.path.join(VERIF, "build", "gxt")
COMMON = ("-resource-dir /usr/lib/llvm-18/lib/clang/18 -fms-extensions -fno-exceptions -O0 -Wno-everything "
          "-fdelayed-template-parsing -DGEN_TIME").split()
WIN = ["--target=x86_64-w64-mingw32"]
LINUX = ["--target=x86_64-linux-gnu"]

class AnalysisBroken(Exception):
    """The analysis itself cannot give a verdict (exit code 2: neither held nor violated)."""

def _cfg(src, *flags, target=WIN, std="c++17"):
    return dict(src=src, flags=list(target) + COMMON + ["-std=" + std, "-I", REPO + "/base"] + list(flags))

CONFIGS = {
    # the translation unit of the real generator build (debug, fatal on failure)
    "base":    _cfg("base/base.cpp", "-DGEN_BUILD_DEBUG=1"),
    # the same with failures logged and InvalidCode returned (GEN_DONT_USE_FATAL): the documented failure mode
    "nofatal": _cfg("base/base.cpp", "-DGEN_BUILD_DEBUG=0", "-DGEN_DONT_USE_FATAL"),
    # full C++ member interface
    "cpp":     _cfg("gen_segmented/segmented.cpp", "-DGEN_BUILD_DEBUG=1"),
    "single":  _cfg("gen_singleheader/singleheader.cpp", "-DGEN_BUILD_DEBUG=1"),
    "unreal":  _cfg("gen_unreal_engine/unreal.cpp", "-DGEN_BUILD_DEBUG=1"),
    "clib":    _cfg("gen_c_library/c_library.cpp", "-DGEN_BUILD_DEBUG=1"),
    "linux":   _cfg("base/base.cpp", "-DGEN_BUILD_DEBUG=1", target=LINUX),
    "linux_nofatal":   _cfg("base/base.cpp", "-DGEN_BUILD_DEBUG=0", "-DGEN_DONT_USE_FATAL", target=LINUX),
}

def build_gxt():
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    if os.path.exists(GXT) and os.path.getmtime(GXT) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(GXT), exist_ok=True)
    fl = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True, check=True).stdout.split()
    tmp = GXT + ".tmp%d" % os.getpid()
    subprocess.run(["clang++-18", "-O1", "-w", "-fno-rtti"] + fl + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib",
                    "-l:libclang-cpp.so.18.1", "-lLLVM-18"], check=True)
    os.replace(tmp, GXT)

class Facts:
    def __init__(self, d, cfg):
        self.cfg = cfg
        self.files = d["files"]; self.types = d["types"]
        self.functions = d["functions"]; self.decls = d["decls"]
        self.byname = collections.defaultdict(list)
        self.byid = {}
        for f in self.functions:
            self.byname[f["n"]].append(f); self.byid[f["id"]] = f
        for f in list(self.functions):
            for x in walk(f["b"]):
                if x["k"] == "lambda" and x.get("id") is not None and x["id"] not in self.byid:
                    lf = dict(n=f["n"] + "::lambda", id=x["id"], l=x.get("l", 0), t=x.get("rt", -1), ps=x["ps"], b=x["body"],
                              end=(x["body"] or {}).get("end", 0), outer=f["id"])
                    self.functions.append(lf); self.byid[x["id"]] = lf
        self.declbyname = collections.defaultdict(list)
        for f in self.decls:
            self.declbyname[f["n"]].append(f)
        self.records = {r["n"]: r for r in d["records"]}
        self.enums = {}
        for e in d["enums"]:
            self.enums.setdefault(e["n"], e)
        self.globals = d["globals"]
        self.gid = {}
        for g in self.globals:
            if g["id"] not in self.gid or "i" in g:
                self.gid[g["id"]] = g
    def file(self, l): return self.files[l // 100000] if l else "?"
    def line(self, l): return l % 100000
    def at(self, l):
        if isinstance(l, dict): l = l.get("l", 0)
        return "%s:%d" % (self.file(l), self.line(l))
    def fn(self, name, required=True):
        v = self.byname.get(name)
        if not v:
            if required: raise AnalysisBroken("function %s not found in %s" % (name, self.cfg))
            return None
        return v[0]
    def enum(self, name):
        if name not in self.enums: raise AnalysisBroken("enum %s not found" % name)
        return self.enums[name]
    def enumvals(self, name): return collections.OrderedDict((x[0], x[1]) for x in self.enum(name)["e"])
    def enumvals_flat(self, enumerator):
        """value of an enumerator, whichever enum declares it"""
        for e in self.enums:
            for x in (self.enums[e] if isinstance(self.enums, dict) else e)["e"]:
                if x[0] == enumerator: return x[1]
        raise AnalysisBroken("enumerator %s not found" % enumerator)
    def type(self, i): return self.types[i] if i is not None and i >= 0 else {"s": "?", "c": "?", "k": "other"}
    def glob(self, name):
        for g in self.globals:
            if (g["n"] == name or g["q"] == name) and "i" in g: return g
        return None

_cache = {}
def extract(cfg, src=None, extra=()):
    key = (cfg, src, tuple(extra))
    if key in _cache: return _cache[key]
    build_gxt()
    c = CONFIGS[cfg]
    fd, out = tempfile.mkstemp(suffix=".json"); os.close(fd)
    try:
        p = subprocess.run([GXT, REPO, out, "--"] + c["flags"] + list(extra) + [src or os.path.join(REPO, c["src"])],
                           capture_output=True, text=True)
        if p.returncode != 0 or os.path.getsize(out) == 0:
            raise AnalysisBroken("%s does not parse:\n%s" % (c["src"], (p.stderr or p.stdout)[-3000:]))
        with open(out) as f: d = json.load(f)
    finally:
        os.unlink(out)
    r = Facts(d, cfg); _cache[key] = r
    return r

def walk(n):
    """pre-order over every node dict"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x: yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed(x))

def calls(n, name=None):
    for x in walk(n):
        if x["k"] == "call" and (name is None or x.get("n") == name): yield x

def strip(e):
    while isinstance(e, dict) and e["k"] in ("icast", "cast"): e = e["e"]
    return e

def written_globals(F):
    """ids of globals / static locals that any function may modify (assigned, incremented, address or decayed array escaping)"""
    if hasattr(F, "_written"): return F._written
    W = set()
    def root(e):
        while True:
            e = strip(e)
            if e["k"] == "mem" and not e["a"]: e = e["b"]
            elif e["k"] == "idx": e = e["b"]
            else: break
        return e["id"] if e["k"] == "var" and e.get("s") in ("g", "s") else None
    def go(n, safe):
        if isinstance(n, list):
            for x in n: go(x, False)
            return
        if not isinstance(n, dict): return
        k = n.get("k")
        if k == "asg": W.add(root(n["x"]))
        elif k == "un" and n["o"] in ("++", "--"): W.add(root(n["e"]))
        elif k == "addr" and not safe: W.add(root(n["e"]))
        elif k == "icast" and not safe and n.get("ck") == "ArrayToPointerDecay" and "const" not in F.type(n["t"])["c"]: W.add(root(n["e"]))
        for key, v in n.items():
            if isinstance(v, (dict, list)): go(v, key == "b" and k == "idx")
    for f in F.functions: go(f["b"], False)
    W.discard(None)
    F._written = W
    return W

def pmap(fn, items, procs=None):
    """fork-based parallel map; fn runs in a child that shares the parent's memory image (ids of nodes stay valid), results are pickled back"""
    import multiprocessing as mp, os
    items = list(items)
    n = procs or min(8, os.cpu_count() or 1)
    if n <= 1 or len(items) <= 1: return [fn(x) for x in items]
    global _PF
    _PF = (fn, items)
    with mp.get_context("fork").Pool(n) as p: return p.map(_pcall, range(len(items)), chunksize=1)
def _pcall(i): return _PF[0](_PF[1][i])
