"""
check.py PROPERTY [quick|thorough]: decides one property.

1. TLC explores the property's families of spec/MC_ATG.tla (all histories up
   to a size), checking the laws of the specification; the histories are run
   on the real code and the executions judged by spec/TraceATG.tla.
2. Random longer histories over the whole interface (gen.py) are run on the
   real code and judged in the same way.
Some properties have models of their own (see plans.py).
Exit 0: held on everything explored; 1: a VIOLATION line was printed.
"""
import collections, hashlib, json, os, re, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import families, plans, tlc
from produce import produce


class Found(Exception):
    pass


def known():
    """listed findings that are not repaired: {property: [entry]}"""
    out = collections.defaultdict(list)
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                e = json.loads(line[7:])
                out[e["property"]].append(e)
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = plans.PLANS[prop]
        self.t0 = time.time()
        self.budget = float(os.environ.get("ATG_BUDGET", 420 if tier == "quick" else 2400))
        self.models, self.replayed, self.ops = [], 0, collections.Counter()
        self.states = self.transitions = self.lines = self.open = self.late = 0
        self.samples = []
        self.violations = 0
        self.known = known()[prop]
        self.said = set()

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ------------------------------------------------------------- reporting
    def report(self, scenario, clause, detail, line=None, module="TraceATG"):
        sc = dict(scenario)
        if line is not None and "ops" in sc and not sc.get("family"):
            sc["ops"] = sc["ops"][:line - 1]
        key = hashlib.sha1(json.dumps([clause, sc.get("ops"), sc.get("chains"), sc.get("model")], sort_keys=True).encode()).hexdigest()[:12]
        for e in self.known:
            if e.get("key") == key:
                if key not in self.said:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, e.get("what", clause)))
                    self.said.add(key)
                return
        self.violations += 1
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (self.prop, key))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "clause": clause, "detail": detail, "module": module, "key": key, "scenario": sc}, f, indent=1)
        print("%s: %s %s" % (self.prop, clause, detail[:300]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        raise Found()

    # ------------------------------------------------------------- judging
    def judge(self, res, module="TraceATG"):
        v = tlc.judge([l for _, l in res], module, deadline=max(60, self.left()))
        self.states += v.distinct
        self.transitions += v.generated - len(res) if v.generated > len(res) else 0
        self.open += len(v.open)
        self.late += len(v.late)
        late = set(v.late)
        for n, (sc, log) in enumerate(res):
            if n not in late:
                self.replayed += 1
                self.lines += len(log)
                for l in log:
                    self.ops[l.get("op", {}).get("op", "?")] += 1
        for prop, clause, n, line, detail in v.viols:
            if prop == self.prop:
                self.report(res[n][0], clause, detail, line, module)
        for n, out in v.unjudged:
            self.report(res[n][0], "not-a-state", "the specification has no meaning for what was recorded: " + out[-300:], None, module)
        if res and len(self.samples) < 3:
            sc, log = res[len(res) // 2]
            self.samples.append({"chains": sc.get("chains"), "ops": sc.get("ops"), "returned": [l.get("ret") for l in log]})

    def run_jobs(self, jobs, seconds):
        res, failed = produce(jobs, min(seconds, max(20, self.left())))
        if failed:
            self.report({"jobs": "harness"}, "harness", failed[0][-600:])
        return res

    # ------------------------------------------------------------- phases
    def corpus(self):
        """histories that once showed a defect"""
        d = os.path.join(ROOT, "corpus")
        scs = []
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if f.endswith(".json"):
                e = json.load(open(os.path.join(d, f)))
                if e["property"] == self.prop or self.prop in e.get("also", ()):
                    scs.append(e["scenario"])
        if scs:
            self.judge(self.run_jobs([("ops", s) for s in scs], 100))

    def family(self, fam, limit):
        n = families.SIZES[fam][0 if self.tier == "quick" else 1]
        ok, hists, g, d, tail = families.explore(fam, n, timeout=max(30, self.left()))
        self.models.append({"family": fam, "size": n, "states": d, "histories": len(hists), "laws": bool(ok)})
        self.states += d
        self.transitions += g
        if not ok:
            raise RuntimeError("model %s: %s" % (fam, tail))
        scs = families.scenarios(fam, hists, self.seed, limit, (0, 0, 1, 2, 3, 4, 5, 7))
        self.models[-1]["replayed"] = len(scs)
        self.models[-1]["all_replayed"] = len(scs) < limit
        for k in range(0, len(scs), 12000):
            if self.left() < 30:
                break
            self.judge(self.run_jobs([("last", s) for s in scs[k:k + 12000]], 300))

    def random(self, profiles, total, nops):
        per = max(1, total // len(profiles))
        num = int(self.prop[1:])
        jobs = [("gen", p, self.seed * 1000003 + num * 10007 + k, nops) for k in range(per) for p in profiles]
        step = 4800
        for k in range(0, len(jobs), step):
            if self.left() < 30:
                break
            self.judge(self.run_jobs(jobs[k:k + step], 240))

    def run(self):
        P = self.plan
        quick = self.tier == "quick"
        try:
            self.corpus()
            for fam in P.get("families", ()):
                self.family(fam, 1500 if quick else 60000)
            for extra in P.get("extra", ()):
                extra(self)
            if P.get("profiles"):
                self.random(P["profiles"], P.get("n", 480) if quick else 24000, 12 if quick else 16)
        except Found:
            pass
        self.evidence()
        return 1 if self.violations else 0

    def evidence(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.replayed, "samples": self.samples[:3],
               "models": self.models, "lines_judged": self.lines, "operations": dict(self.ops.most_common()),
               "outcomes_not_prescribed": self.open, "traces_without_time": self.late}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["TLC evaluates the specification correctly",
                              "the projection in harness/world.py reports what the public interface returns",
                              "inputs within the domain given in DESIGN.md"],
              "wall_s": round(time.time() - self.t0, 2), "violations": self.violations}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    rc = c.run()
    print("%s %s: %s  models %s  traces %d  lines %d  open %d  states %d  %.0fs" % (
        prop, tier, "VIOLATED" if rc else "held", [(m["family"], m["size"], m["states"]) for m in c.models],
        c.replayed, c.lines, c.open, c.states, time.time() - c.t0))
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
