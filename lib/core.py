"""The frame of a check: seeds, tiers, violations, known findings, evidence."""
import json, os, random, sys, time, traceback
import build, run
from build import VERIF

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.work = build.Work(pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra = [], {}
        self.violations, self.findings = [], {}
        self.level = "model_checking"
        self.assumptions = ["the C++ compiler, sanitizers, protoc and TLC work as documented",
                            "recorded observations are what the public accessors of the generated classes return"]

    def scale(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 12) if self.thorough else quick

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def violate(self, what, replay):
        self.violations.append(what)
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.id, len(self.violations)))
        with open(p, "w") as f:
            json.dump(dict(property=self.id, seed=self.seed, tier=self.tier, what=what, replay=replay), f, indent=1)
        if len(self.violations) <= 5:
            print("  " + what[:1500])
            print("VIOLATION property=%s replay=%s" % (self.id, p))

    def finding(self, key, what):
        if known_finding(self.id, key):
            self.findings.setdefault(key, what)
        else:
            self.violate("unlisted finding %s: %s" % (key, what), what)

    def evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples)
        cov.update(self.extra)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(dict(property=self.id, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                           wall_s=round(time.time() - self.t0, 1), violations=len(self.violations)), f, indent=1)


def known_finding(pid, key):
    """Is the finding listed: 'finding: property=<id> key=<key> ...'"""
    try:
        with open(KNOWN) as f:
            return any(l.startswith("finding: property=%s key=%s " % (pid, key)) for l in f)
    except OSError:
        return False


def main(table):
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    ctx = Ctx(pid, tier, int(os.environ.get("VERIF_SEED", "1")))
    rc = 0
    try:
        table[pid](ctx)
        for k, w in sorted(ctx.findings.items()):
            print("KNOWN-FINDING: property=%s %s" % (pid, w))
        rc = 1 if ctx.violations else 0
    except (run.Inconclusive, build.CompileError, build.GeneratorError) as e:
        print("%s: no verdict: %s" % (pid, str(e)[-3000:]))
        rc = 1 if ctx.violations else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if ctx.violations else 2
    finally:
        if not os.environ.get("VP_KEEP"):
            ctx.work.close()
        else:
            print("kept " + ctx.work.dir)
    ctx.evidence()
    print("%s %s seed=%d: %s in %.0f s; states=%d transitions=%d traces=%d" % (
        pid, tier, ctx.seed, {0: "held", 1: "VIOLATED"}.get(rc, "no verdict"), time.time() - ctx.t0, ctx.states, ctx.transitions, ctx.traces))
    sys.exit(rc)
