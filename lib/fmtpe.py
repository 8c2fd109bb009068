"""Constant propagation of one constant format through the formatter's source: which va_arg types are read, in order."""
import absint, gx
from absint import C0, C1

class PE(absint.Interp):
    def __init__(self, F):
        super().__init__(F, max_iter=40, inline_depth=12)
        self.hasva = set()
        ch = True
        while ch:
            ch = False
            for f in F.functions:
                if f["id"] in self.hasva: continue
                if any(x["k"] == "vaarg" or (x["k"] == "call" and x.get("id") in self.hasva) for x in gx.walk(f["b"])):
                    self.hasva.add(f["id"]); ch = True
    def vaarg(self, e, st):
        st = st.clone(); st.emit("va", e["t"]); return [(st, st.fresh("va"))]
    def call(self, e, st):
        f = self.F.byid.get(e.get("id"))
        if f is not None and f["id"] not in self.hasva:
            # a callee that writes the output (first argument is the output cursor) consumes one character of room
            r = self.evargs(e["a"], st)
            if r and any(absint_mentions(v, "OUT") for s, vs in r for v in vs[:1]): return [(s, C1) for s, vs in r]
        return super().call(e, st)
    def on_write(self, st, loc, val, node): pass
    def write(self, st, loc, val, node=None):
        if loc[0][0] == "P" or loc[0] == ("O", "OUT"): return       # output bytes are irrelevant here
        super().write(st, loc, val, node)

def absint_mentions(v, tag):
    if isinstance(v, tuple): return any(absint_mentions(x, tag) for x in v)
    return v == tag

def va_types(F, fmt):
    ip = PE(F)
    f = F.fn("c_str_fmt_va")
    args = []
    for p in f["ps"]:
        t = F.type(p["t"])
        if "char" in t["c"] and "const" in t["c"]: args.append(("addr", ("S", fmt), (("i", C0),)))
        elif t["k"] == "ptr" and "char" in t["c"] and len(args) == 0: args.append(("addr", ("O", "OUT"), (("i", C0),)))
        elif t["k"] == "int": args.append(("c", 1 << 16))
        else: args.append(("addr", ("O", "VA"), ()))
    outs = ip.run("c_str_fmt_va", args)
    traces = {tuple(t for k, t in s.trace if k == "va") for s, v in outs}
    if len(traces) != 1: raise gx.AnalysisBroken("formatter argument consumption for %r is not a function of the format: %s" % (fmt, len(traces)))
    return list(next(iter(traces)))
