"""Frame of a check: tiers, seeds, evidence, violations, known findings."""
import os, sys, json, time, random, traceback, shutil
from concurrent.futures import ThreadPoolExecutor
from . import build, tlc
VERIF = build.VERIF

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.cover, self.assumptions = [], {}, []
        self.violations = []
        self.replaydir = os.path.join(tlc.RUN, "replay", prop)
        shutil.rmtree(self.replaydir, ignore_errors=True)
        self.pool = ThreadPoolExecutor(8)
        self.known = [k for k in known_findings() if k["property"] == prop]

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def left(self):
        """Seconds left of the time budget of this tier."""
        return self.n(float(os.environ.get("VK_QUICK_BUDGET", 150)), 3000) - (time.time() - self.t0)

    def count(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, name, data):
        os.makedirs(self.replaydir, exist_ok=True)
        path = os.path.join(self.replaydir, name + ".json")
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        self.violations.append(path)

    def known_finding(self, what):
        print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)
        self.cover.setdefault("known_findings", []).append(what)

    def model(self, module, cfg, what, expect_ok=True, **kw):
        """Check a design-level model; a failure here is an error of the specification."""
        r = tlc.run(module, cfg, **kw)
        self.count(r)
        self.cover.setdefault("models", []).append(
            {"module": module, "what": what, "states": r.distinct, "transitions": r.generated})
        if r.ok != expect_ok:
            raise tlc.TlcError("model %s (%s) failed:\n%s" % (module, what, r.out[-4000:]))
        return r

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cover)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %s: %d traces against nvc, %d spec states, %d violations, %.1f s" %
              (self.prop, self.tier, self.traces, self.states, len(self.violations), ev["wall_s"]), flush=True)

def known_findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except OSError:
        return []

def main(prop, body, level="model_checking", targets=("libs",)):
    """body(check) performs the check.  Exit: 0 held, 1 violation, 2 error of the check."""
    c = Check(prop, level)
    try:
        try:
            build.build(targets)
        except build.BuildError as e:
            print("build failed:\n%s" % e)
            sys.exit(2)
        body(c)
        c.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        if c.violations:
            c.finish()
            sys.exit(1)
        sys.exit(2)
    sys.exit(1 if c.violations else 0)
