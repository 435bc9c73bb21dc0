"""Common frame of every check: build, run, confirm, known findings, evidence, verdict."""
import json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, clz, tlc
from build import VERIF

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.states = self.transitions = self.validated = 0
        self.extra = {}
        self.samples = []
        self.viol = []
        self.assumptions = []
        self.notes = []
        self.known = {}
        self.exhaustive = None
        try:
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith("finding: property=%s " % pid):
                    rest = l.split(" ", 2)[2]
                    key, _, what = rest.partition(" ")
                    self.known[key[4:] if key.startswith("key=") else key] = what
        except OSError:
            pass
        self.known_hit = {}

    def model(self, r, name=None):
        self.states += r.distinct
        self.transitions += r.states
        if name:
            self.extra.setdefault("models", {})[name] = {"states": r.distinct, "generated": r.states, "records": len(r.records)}

    def sample(self, s, cap=5):
        if len(self.samples) < cap:
            self.samples.append(s if isinstance(s, str) else json.dumps(s)[:1500])

    def violation(self, key, what, replay=None):
        """key identifies the failing input/history; known findings are matched on it."""
        if key in self.known:
            self.known_hit[key] = what
            return
        self.viol.append((key, what, replay))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def main(pid, fn, level="model_checking"):
    t0 = time.time()
    ctx = Ctx(pid)
    try:
        build.ensure_built()
    except build.BuildError as e:
        print("ERROR: the tree does not build\n%s" % e)
        sys.exit(3)
    tb = time.time() - t0
    try:
        fn(ctx)
    except tlc.ModelError as e:
        print("ERROR (model, no verdict): %s" % e)
        sys.exit(4)
    except Exception:
        traceback.print_exc()
        print("ERROR (machinery, no verdict)")
        sys.exit(5)
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.validated,
           "samples": ctx.samples or ["(none)"]}
    if ctx.exhaustive is not None:
        cov["exhaustive"] = bool(ctx.exhaustive)
    cov.update(ctx.extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 1), "build_s": round(tb, 1),
          "violations": len(ctx.viol), "known_findings_seen": sorted(ctx.known_hit)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(ctx.known):
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k, ctx.known[k]))
    if ctx.viol:
        rd = os.path.join(VERIF, "build", "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for i, (key, what, replay) in enumerate(ctx.viol[:6]):
            path = os.path.join(rd, "%s-%d.json" % (pid, i))
            with open(path, "w") as f:
                json.dump({"property": pid, "key": key, "what": what, "replay": replay}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  key=%s" % key)
            print("  " + str(what)[:700])
        if len(ctx.viol) > 6:
            print("  ... and %d more" % (len(ctx.viol) - 6))
        sys.exit(1)
    print("OK property=%s tier=%s states=%d replayed=%d wall=%.1fs (build %.1fs)" % (
        pid, ctx.tier, ctx.states, ctx.validated, time.time() - t0, tb))
    sys.exit(0)
