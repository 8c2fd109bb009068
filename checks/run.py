"""check driver: run.py ID [--thorough]; exit 0 held, 1 VIOLATION, 2 analysis broken"""
import importlib, json, os, sys, time, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, os.path.join(V, "checks"))
import gx

class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.violations = []; self.cov = {}; self.notes = []; self.assumptions = []
        self.obligations = 0; self.discharged = 0; self.samples = []
    def ok(self, n=1): self.obligations += n; self.discharged += n
    def bad(self, key, where, rule, detail):
        """key identifies the instance independent of line numbers"""
        self.obligations += 1
        if not any(v["key"] == key for v in self.violations):
            self.violations.append(dict(key=key, where=where, rule=rule, detail=detail))
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def need(self, what, n, minimum):
        """instance floor confirmed by hand; below it the rule has lost its anchors"""
        self.cov[what] = n
        if n < minimum: raise gx.AnalysisBroken("%s: %d found, at least %d expected (anchors lost)" % (what, n, minimum))

def main():
    pid = sys.argv[1]; tier = "thorough" if "--thorough" in sys.argv else "quick"
    t0 = time.time()
    rep = Report(pid, tier)
    try:
        mod = importlib.import_module(pid.lower())
        mod.check(rep)
    except gx.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e)); traceback.print_exc(); sys.exit(2)
    with open(os.path.join(V, "known_findings.json")) as f: known = json.load(f)
    kf = {k["key"]: k for k in known["findings"] if k["property"] == pid}
    new = [v for v in rep.violations if v["key"] not in kf]
    old = [v for v in rep.violations if v["key"] in kf]
    for v in old: print("KNOWN-FINDING: property=%s %s [%s] %s" % (pid, v["where"], v["key"], kf[v["key"]]["what"]))
    level = mod.LEVEL if hasattr(mod, "LEVEL") else "other"
    cov = dict(rep.cov)
    cov.update(obligations=rep.obligations, discharged=rep.discharged, samples=rep.samples,
               explanation=getattr(mod, "__doc__", "") or "", known_findings=len(old))
    if rep.notes: cov["notes"] = rep.notes
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
              assumptions=rep.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    if new:
        rp = os.path.join("evidence", pid + ".violations.json")
        with open(os.path.join(V, rp), "w") as f: json.dump(new, f, indent=1, ensure_ascii=False)
        for v in new: print("%s: %s [%s]: %s" % (v["where"], v["rule"], v["key"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp)); sys.exit(1)
    print("property %s held: %d obligations, %d known findings, %.1fs" % (pid, rep.obligations, len(old), time.time() - t0))
if __name__ == "__main__": main()
