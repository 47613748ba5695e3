"""What every check shares: evidence, verdicts, known findings."""
import json
import os
import sys
import time
import traceback

import vxlib
import tlc

KNOWN = os.path.join(vxlib.VERIF, "KNOWN_FINDINGS.txt")
EVID = os.path.join(vxlib.VERIF, "evidence")


def known_findings(pid):
    """{finding id: text} of the findings recorded for a property."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                fid, text = rest.split(" ", 1)
                out[fid] = text
    return out


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = vxlib.TIER
        self.seed = vxlib.SEED
        self.quick = self.tier != "thorough"
        self.work = vxlib.newwork(pid.lower())
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.exhaustive = None
        self.assumptions = []
        self.bad = []
        self.known = known_findings(pid)
        self.known_seen = {}

    # -- specification runs
    def tlc(self, module, constants, invariants=(), **kw):
        kw.setdefault("name", "%s-%d" % (module, self.states))
        r = tlc.run(self.work, module, constants, invariants, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.exhaustive = r.exhaustive if self.exhaustive is None else (self.exhaustive and r.exhaustive)
        return r

    def spec_violated(self, what):
        """The specification itself fails one of its own invariants: an error of the check."""
        raise vxlib.CheckError("specification: " + what)

    # -- verdicts
    def fail(self, what, detail=""):
        self.bad.append((what, detail))

    def finding(self, fid, still_fails, what):
        """The probe of a recorded finding: reported as known while it is listed, as a violation otherwise."""
        if not still_fails:
            return
        if fid in self.known:
            self.known_seen[fid] = self.known[fid]
        else:
            self.fail("%s: %s" % (fid, what))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        replay = os.path.join(EVID, self.pid + ".replay.txt")
        if os.path.exists(replay):
            os.remove(replay)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        if self.exhaustive is not None:
            cov["exhaustive"] = bool(self.exhaustive)
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        tmp = os.path.join(EVID, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        for fid, text in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s %s" % (self.pid, fid, text))
        if self.bad:
            with open(replay, "w") as f:
                for what, detail in self.bad[:200]:
                    f.write("== %s\n%s\n\n" % (what, detail))
            for what, detail in self.bad[:8]:
                print("# " + what.replace("\n", "\n#   ")[:1200])
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        print("OK property=%s tier=%s seed=%d states=%d traces=%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, self.states, self.traces, time.time() - self.t0))
        return 0


def main(pid, fn, level="model_checking"):
    ctx = Ctx(pid, level)
    keep = os.environ.get("VERIF_KEEP")
    try:
        fn(ctx)
        if not ctx.bad and (ctx.traces == 0 or ctx.states == 0) and level == "model_checking":
            raise vxlib.CheckError("nothing was explored")
        rc = ctx.finish()
    except vxlib.CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        print("ERROR property=%s" % pid)
        rc = 2
    finally:
        if not keep:
            vxlib.rmwork(ctx.work)
        else:
            print("work", ctx.work)
    sys.stdout.flush()
    return rc
