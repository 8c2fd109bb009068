"""Structured powerset dataflow: a set of (client state, flag environment) pairs is pushed through a function's statements.
The flag environment is constant propagation for local scalars (so `bool ok` style rewrites stay precise)."""
from gx import AnalysisBroken

UNK = None

class Flow:
    """Client: override call(node, st) -> iterable[(st, const|None)], and optionally assign/enter hooks.
    A flow state is (cs, env) with cs client-state (hashable) and env a frozenset of (varid, const)."""
    max_states = 4000
    track = staticmethod(lambda v: True)
    def __init__(self, facts): self.F = facts; self.cur = None
    # ---- client hooks
    def on_call(self, node, cs): return [(cs, UNK)]
    def on_assign(self, node, cs): return [cs]
    def on_leaf(self, cond, cs, truth): return cs           # refine or None
    def on_loop(self, node, entry_states): pass
    def on_decl(self, v, cs): return [cs]
    def noreturn(self, node): return node.get("nr") or (node.get("n") or "").startswith(("__builtin_trap", "__builtin_unreachable")) or node.get("n") in ("assert_handler", "process_exit", "exit", "abort")
    # ---- env
    def getv(self, env, vid):
        for k, v in env:
            if k == vid: return v
        return UNK
    def setv(self, env, vid, val):
        e = [(k, v) for k, v in env if k != vid]
        if val is not UNK: e.append((vid, val))
        return frozenset(e)
    # ---- expressions: yields list of (cs, env, value)
    def ev(self, e, S):
        """S: list of (cs, env) -> list of (cs, env, val)"""
        if e is None: return [(c, v, UNK) for c, v in S]
        k = e["k"]
        if "cv" in e and k not in ("call",): return [(c, v, e["cv"]) for c, v in S]
        if k == "null": return [(c, v, 0) for c, v in S]
        if k == "var":
            if e["s"] in ("l", "p"): return [(c, v, self.getv(v, e["id"])) for c, v in S]
            return [(c, v, UNK) for c, v in S]
        if k == "bin" and e["o"] in ("&&", "||"):
            T, Fl = self.cond(e, S)
            return [(c, v, 1) for c, v in T] + [(c, v, 0) for c, v in Fl]
        if k == "cond":
            T, Fl = self.cond(e["c"], S)
            return self.ev(e["x"], T) + self.ev(e["y"], Fl) if T and Fl else self.ev(e["x"], T) if T else self.ev(e["y"], Fl)
        if k == "un" and e["o"] == "!":
            return [(c, v, UNK if x is UNK else int(not x)) for c, v, x in self.ev(e["e"], S)]
        if k in ("icast", "cast"): return self.ev(e["e"], S)
        if k == "asg":
            out = []
            R = self.ev(e["y"], S)
            l = e["x"]
            while l["k"] in ("cast", "icast"): l = l["e"]
            for c, v, x in R:
                if l["k"] == "var":
                    nv = self.setv(v, l["id"], x if e["o"] == "=" and l["s"] in ("l", "p") else UNK)
                    for c2 in self.on_assign(e, c): out.append((c2, nv, x if e["o"] == "=" else UNK))
                else:
                    for c1, v1, _ in self.ev(l, [(c, v)]):
                        for c2 in self.on_assign(e, c1): out.append((c2, v1, x))
            return out
        if k == "un" and e["o"] in ("++", "--"):
            out = []
            for c, v, x in self.ev(e["e"], S):
                l = e["e"]
                if l["k"] == "var": v = self.setv(v, l["id"], UNK)
                for c2 in self.on_assign(e, c): out.append((c2, v, UNK))
            return out
        if k == "call":
            if self.noreturn(e):
                return []
            cur = [(c, v) for c, v in S]
            for a in e["a"]:
                cur = [(c, v) for c, v, _ in self.ev(a, cur)]
                cur = list(dict.fromkeys(cur))
            if "cx" in e and e.get("n") is None: cur = [(c, v) for c, v, _ in self.ev(e["cx"], cur)]
            # locals whose address escapes lose their constant
            for a in e["a"]:
                if a["k"] == "addr" and a["e"]["k"] == "var":
                    cur = [(c, self.setv(v, a["e"]["id"], UNK)) for c, v in cur]
            out = []
            for c, v in cur:
                for c2, x in self.on_call(e, c): out.append((c2, v, x))
            return list(dict.fromkeys(out))
        if k == "lambda": return [(c, v, UNK) for c, v in S]
        if k == "stmtexpr":
            o = self.ex(e["body"], S); return [(c, v, UNK) for c, v in o["norm"]]
        # generic children
        cur = S
        for key in ("b", "e", "i", "x", "y"):
            ch = e.get(key)
            if isinstance(ch, dict) and "k" in ch: cur = [(c, v) for c, v, _ in self.ev(ch, cur)]
        if isinstance(e.get("a"), list):
            for ch in e["a"]:
                if isinstance(ch, dict): cur = [(c, v) for c, v, _ in self.ev(ch, cur)]
        if k == "bin" and e["o"] in ("==", "!="):
            # constant comparison of a flag
            x, y = e["x"], e["y"]
            out = []
            for c, v in list(dict.fromkeys(cur)):
                a = self.peek(x, v); b = self.peek(y, v)
                out.append((c, v, UNK if a is UNK or b is UNK else int((a == b) == (e["o"] == "=="))))
            return out
        return [(c, v, UNK) for c, v in list(dict.fromkeys(cur))]
    def peek(self, e, env):
        while e["k"] in ("icast", "cast"): e = e["e"]
        if "cv" in e: return e["cv"]
        if e["k"] == "null": return 0
        if e["k"] == "var" and e["s"] in ("l", "p"): return self.getv(env, e["id"])
        return UNK
    def cond(self, e, S):
        k = e["k"]
        if "cv" in e: return (S, []) if e["cv"] else ([], S)
        if k == "bin" and e["o"] in ("&&", "||"):
            T, Fl = self.cond(e["x"], S)
            if e["o"] == "&&":
                T2, F2 = self.cond(e["y"], T) if T else ([], [])
                return T2, self.dd(Fl + F2)
            T2, F2 = self.cond(e["y"], Fl) if Fl else ([], [])
            return self.dd(T + T2), F2
        if k == "un" and e["o"] == "!":
            T, Fl = self.cond(e["e"], S); return Fl, T
        if k in ("icast", "cast"): return self.cond(e["e"], S)
        T, Fl = [], []
        for c, v, x in self.ev(e, S):
            if x is not UNK:
                (T if x else Fl).append((c, v)); continue
            t = self.on_leaf(e, c, True)
            f = self.on_leaf(e, c, False)
            # learn flag value from `if (flag)`
            ve, vf = v, v
            if e["k"] == "var" and e["s"] in ("l", "p") and self.F.type(e["t"])["k"] == "bool":
                ve = self.setv(v, e["id"], 1); vf = self.setv(v, e["id"], 0)
            if t is not None: T.append((t, ve))
            if f is not None: Fl.append((f, vf))
        return self.dd(T), self.dd(Fl)
    def dd(self, S):
        S = list(dict.fromkeys(S))
        if len(S) > self.max_states: raise AnalysisBroken("state explosion in %s (%d)" % (self.cur, len(S)))
        return S
    # ---- statements
    def ex(self, n, S):
        o = {"norm": [], "brk": [], "cont": [], "ret": [], "goto": []}
        if n is None or not S: o["norm"] = S; return o
        getattr(self, "s_" + n["k"])(n, S, o)
        o["norm"] = self.dd(o["norm"])
        return o
    def mg(self, o, r, ks=("brk", "cont", "ret", "goto")):
        for k in ks: o[k] += r[k]
    def s_expr(self, n, S, o): o["norm"] = [(c, v) for c, v, _ in self.ev(n["e"], S)]
    def s_nop(self, n, S, o): o["norm"] = S
    def s_blk(self, n, S, o):
        b = n["b"]
        pend = []      # gotos looking for a later label in this block
        cur = S
        for st in b:
            if st["k"] == "label" or (st["k"] in ("case", "default")):
                pass
            if st["k"] == "label":
                hit = [s for s, l in pend if l == st["n"]]; pend = [(s, l) for s, l in pend if l != st["n"]]
                cur = self.dd(cur + hit)
            r = self.ex(st, cur)
            self.mg(o, r, ("brk", "cont", "ret"))
            pend += r["goto"]
            cur = r["norm"]
        # backward gotos / labels elsewhere
        for s, l in pend: o["goto"].append((s, l))
        o["norm"] = cur
    def s_label(self, n, S, o):
        r = self.ex(n["s"], S); self.mg(o, r); o["norm"] = r["norm"]
    def s_case(self, n, S, o):
        r = self.ex(n["s"], S); self.mg(o, r); o["norm"] = r["norm"]
    s_default = s_case
    def s_goto(self, n, S, o): o["goto"] = [(s, n["n"]) for s in S]
    def s_decl(self, n, S, o):
        cur = S
        for v in n["v"]:
            out = []
            if v.get("i") is not None and not v.get("static"):
                for c, env, x in self.ev(v["i"], cur):
                    for c2 in self.on_decl(v, c): out.append((c2, self.setv(env, v["id"], x)))
            else:
                for c, env in cur:
                    for c2 in self.on_decl(v, c): out.append((c2, self.setv(env, v["id"], UNK)))
            cur = self.dd(out)
        o["norm"] = cur
    def s_if(self, n, S, o):
        if n.get("init"): S = self.ex(n["init"], S)["norm"]
        if n.get("cv"): S = self.ex(n["cv"], S)["norm"]
        T, Fl = self.cond(n["c"], S)
        r = self.ex(n["x"], T); self.mg(o, r); o["norm"] = r["norm"]
        if n["y"] is not None:
            r = self.ex(n["y"], Fl); self.mg(o, r); o["norm"] = o["norm"] + r["norm"]
        else: o["norm"] = o["norm"] + Fl
    def s_ret(self, n, S, o):
        for c, v, x in self.ev(n["e"], S): o["ret"].append(((c, v), n, x))
    def s_break(self, n, S, o): o["brk"] = list(S)
    def s_cont(self, n, S, o): o["cont"] = list(S)
    def s_unkstmt(self, n, S, o): raise AnalysisBroken("unsupported statement " + n["cls"])
    def loop(self, n, S, o, cond, body, step, post=False):
        seen = set(); work = list(S); exits = []
        first = True
        self.on_loop(n, S)
        while work:
            if post and first: enter = work; first = False
            else:
                if cond is not None:
                    T, Fl = self.cond(cond, work); exits += Fl
                else: T = work
                enter = T
            enter = [s for s in self.dd(enter) if s not in seen]
            seen.update(enter)
            if len(seen) > self.max_states: raise AnalysisBroken("loop state explosion in %s" % self.cur)
            if not enter: break
            r = self.ex(body, enter)
            exits += r["brk"]; o["ret"] += r["ret"]; o["goto"] += r["goto"]
            work = r["norm"] + r["cont"]
            if step is not None: work = [(c, v) for c, v, _ in self.ev(step, work)]
            work = self.on_backedge(n, self.dd(work))
        o["norm"] = self.dd(exits)
    def on_backedge(self, n, S): return S
    def s_while(self, n, S, o): self.loop(n, S, o, n["c"], n["b"], None)
    def s_do(self, n, S, o):
        if n["c"].get("cv") == 0 and "cv" in n["c"]:
            r = self.ex(n["b"], S); o["ret"] += r["ret"]; o["goto"] += r["goto"]; o["norm"] = r["norm"] + r["brk"] + r["cont"]; return
        self.loop(n, S, o, n["c"], n["b"], None, post=True)
    def s_for(self, n, S, o):
        if n["i"] is not None: S = self.ex(n["i"], S)["norm"]
        self.loop(n, S, o, n["c"], n["b"], n["s"])
    def s_switch(self, n, S, o):
        from switchutil import flatten
        items, groups, default_at = flatten(n)
        work = {}
        for c, v, x in self.ev(n["c"], S):
            if x is not UNK:
                for g, j in groups:
                    if x in g: work.setdefault(j, []).append((c, v)); break
                else: work.setdefault(default_at, []).append((c, v))
                continue
            for g, j in groups:
                c2 = self.on_case(n, c, g)
                if c2 is not None: work.setdefault(j, []).append((c2, v))
            c2 = self.on_case(n, c, None, [y for g, _ in groups for y in g])
            if c2 is not None: work.setdefault(default_at, []).append((c2, v))
        for j, SS in work.items():
            if j is None: o["norm"] = o["norm"] + SS; continue
            cur = self.dd(SS)
            for it in items[j:]:
                if it[0] != "S" or not cur: continue
                r = self.ex(it[1], cur)
                o["norm"] = o["norm"] + r["brk"]; self.mg(o, r, ("cont", "ret", "goto"))
                cur = r["norm"]
            o["norm"] = o["norm"] + cur
    def on_case(self, n, cs, vals, excluded=None): return cs
    # ---- function
    def function(self, f, cs):
        self.cur = f["n"]
        o = self.ex(f["b"], [(cs, frozenset())])
        if o["goto"]:
            # jump to a label nested elsewhere: rerun from that label is not supported
            raise AnalysisBroken("goto into nested label in %s" % f["n"])
        outs = [(c, None, UNK) for c, v in o["norm"]]
        for (c, v), node, x in o["ret"]: outs.append((c, node, x))
        return outs
