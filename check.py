#!/usr/bin/env python3
"""check.py <property> [--scale x]: decide one property of /repo's current tree."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import harness, props, tlc
ROOT = os.path.dirname(os.path.abspath(__file__))


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.scale = float(os.environ.get("VERIF_SCALE", "6" if self.tier == "thorough" else "1"))
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", "5400" if self.tier == "thorough" else "420"))
        self.states = self.transitions = self.traces = 0
        self.nontrivial = set()
        self.samples = []
        self.suite_stats = {}
        self.notes = {}
        self.violations = []
        self.known = []
        self.unconfirmed = 0

    def out_of_time(self):
        return time.time() - self.t0 > self.budget

    def violation(self, data, what):
        d = os.path.join(ROOT, ".build", "replay", self.pid)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%d.json" % len(self.violations))
        json.dump(dict(property=self.pid, what=what, **data), open(p, "w"), indent=1)
        self.violations.append(p)
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("  " + what, flush=True)

    def known_finding(self, what):
        self.known.append(what)
        print("KNOWN-FINDING: property=%s %s" % (self.pid, what), flush=True)

    def evidence(self, level):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples,
                   distinct_nontrivial=len(self.nontrivial), evaluations=self.traces,
                   rule="histories recorded from the real library whose event sequence is distinct and non-trivial (see DESIGN.md)",
                   by_suite=self.suite_stats, unconfirmed=self.unconfirmed, known_findings=self.known)
        cov.update(self.notes)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(time.time() - self.t0, 1),
                       violations=len(self.violations)), open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1)


def main():
    pid = sys.argv[1]
    spec = props.PROPS[pid]
    ctx = Ctx(pid)
    harness.build(spec.get("targets", ("driver",)))
    for step in spec["steps"]:
        step(ctx)
        if len(ctx.violations) >= 3:
            break
    ctx.evidence(spec["level"])
    print("%s: %d histories, %d states, %d violations, %.0fs" % (pid, ctx.traces, ctx.states, len(ctx.violations), time.time() - ctx.t0))
    return 1 if ctx.violations else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (harness.BuildError, tlc.ToolError) as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
