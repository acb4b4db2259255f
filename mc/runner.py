"""
Runs the scenarios of one property and writes evidence, replays and verdicts.
"""

import argparse
import json
import os
import sys
import time
import traceback

from . import core

VERIF = core.VERIF
# (development: checks of other sources leave the evidence alone)
EVIDENCE = os.environ.get("ZKAP_EVIDENCE") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % prop):
                    rest = line.split(" ", 2)[2]
                    key, _, text = rest.partition(" ")
                    assert key.startswith("key=")
                    out[key[4:]] = text
    except FileNotFoundError:
        pass
    return out


def quiet_logging():
    from twisted.logger import globalLogBeginner

    globalLogBeginner.beginLoggingTo([], discardBuffer=True, redirectStandardIO=False)


class Check:
    """
    :param level: evidence level
    :param scenarios: [Scenario]
    """

    def __init__(self, prop, level, rule, assumptions, scenarios):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.assumptions = assumptions
        self.scenarios = scenarios

    def main(self, argv=None):
        p = argparse.ArgumentParser()
        p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        p.add_argument("--only", default=None)
        p.add_argument("--replay", default=None)
        p.add_argument("--jobs", type=int, default=None)
        a = p.parse_args(argv)
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        if a.replay:
            quiet_logging()
            return self.replay(a.replay)
        quiet_logging()
        t0 = time.time()
        budget = 820 if a.tier == "quick" else 24 * 3600
        known = known_findings(self.prop)
        seen_known = {}
        parts = []
        violation = None
        for sc in self.scenarios:
            if a.only and a.only != sc.name:
                continue
            ts = time.time()
            res = sc.run(a.tier, t0 + budget, set(known), a.jobs)
            parts.append((sc, res, time.time() - ts))
            print(
                "[%s] %s: %d executions, %d states, %d transitions, %s, %.1fs"
                % (
                    self.prop,
                    sc.name,
                    res.executions,
                    res.states,
                    res.transitions,
                    "exhaustive" if res.exhausted else "bound hit by time",
                    time.time() - ts,
                )
            )
            sys.stdout.flush()
            for k, log in res.known.items():
                seen_known.setdefault(k, log)
            if res.violation is not None:
                violation = (sc, res.violation)
                break
        wall = time.time() - t0
        self.write_evidence(a.tier, seed, parts, wall, violation)
        for k in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
        if violation is not None:
            sc, v = violation
            path = self.write_replay(sc, v, a.tier)
            print("scenario: %s" % sc.name)
            print("what: %s" % v.what)
            if v.detail:
                print(
                    "detail: %s" % json.dumps(v.detail, default=repr, indent=1)[:6000]
                )
            print("history:")
            for line in v.log:
                print("    " + str(line))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            return 1
        print("OK property=%s (%.1fs)" % (self.prop, wall))
        return 0

    def write_replay(self, sc, v, tier):
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.prop, sc.name))
        with open(path, "w") as f:
            json.dump(
                {
                    "property": self.prop,
                    "scenario": sc.name,
                    "tier": tier,
                    "what": v.what,
                    "detail": v.detail,
                    "choices": [c for (_, c, _) in v.trace],
                    "history": v.log,
                    "run": "./check.sh %s --replay %s" % (self.prop, path),
                },
                f,
                indent=1,
                default=repr,
            )
        return path

    def replay(self, path):
        with open(path) as f:
            data = json.load(f)
        for sc in self.scenarios:
            if sc.name == data["scenario"]:
                fn = sc.build(data["tier"])
                try:
                    out = core.replay(fn, data["choices"])
                except core.Violation as v:
                    print("reproduced: %s" % v.what)
                    print(json.dumps(v.detail, default=repr, indent=1))
                    print("VIOLATION property=%s replay=%s" % (self.prop, path))
                    return 1
                except Exception:
                    traceback.print_exc()
                    print("VIOLATION property=%s replay=%s" % (self.prop, path))
                    return 1
                print("not reproduced: %r" % (out,))
                return 0
        raise SystemExit("no such scenario")

    def write_evidence(self, tier, seed, parts, wall, violation):
        cov = {
            "rule": self.rule,
            "exhaustive": all(r.exhausted for _, r, _ in parts) and violation is None,
            "samples": [],
            "scenarios": {},
        }
        ex = sum(r.executions for _, r, _ in parts)
        if self.level == "model_checking":
            cov["states"] = sum(r.states for _, r, _ in parts)
            cov["transitions"] = sum(r.transitions for _, r, _ in parts)
            cov["traces_validated_against_impl"] = ex
        else:
            cov["evaluations"] = ex
            cov["distinct_nontrivial"] = sum(len(r.outcomes) for _, r, _ in parts)
            cov["states"] = sum(r.states for _, r, _ in parts)
            cov["transitions"] = sum(r.transitions for _, r, _ in parts)
        for sc, r, w in parts:
            outs = sorted(r.outcomes.items(), key=lambda kv: -kv[1])
            cov["scenarios"][sc.name] = {
                "bounds": sc.bounds(tier),
                "executions": r.executions,
                "states": r.states,
                "transitions": r.transitions,
                "distinct_outcomes": len(outs),
                "outcomes": dict(outs[:20]),
                "exhaustive_within_bounds": r.exhausted,
                "wall_s": round(w, 2),
            }
            cov["samples"].extend(
                [dict(s, scenario=sc.name) for s in r.samples[:3]]
            )
        if not cov["samples"]:
            cov["samples"] = [{"scenario": sc.name} for sc, _, _ in parts]
        d = EVIDENCE
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(
                {
                    "property": self.prop,
                    "tier": tier,
                    "seed": seed,
                    "level": self.level,
                    "coverage": cov,
                    "assumptions": self.assumptions,
                    "wall_s": round(wall, 2),
                    "violations": 0 if violation is None else 1,
                },
                f,
                indent=1,
                default=repr,
            )


class Scenario:
    """
    :param name: identifier
    :param make: ``make(bounds) -> scenario(ch)``
    :param quick/thorough: bounds dictionaries
    :param split: explore in several processes
    """

    def __init__(self, name, make, quick=None, thorough=None, split=True):
        self.name = name
        self.make = make
        self.quick = quick or {}
        self.thorough = thorough if thorough is not None else self.quick
        self.split = split

    def bounds(self, tier):
        return self.thorough if tier == "thorough" else self.quick

    def build(self, tier):
        return self.make(dict(self.bounds(tier)))

    def run(self, tier, deadline, known, jobs):
        fn = self.build(tier)
        is_known = lambda v: v.finding if v.finding in known else None
        if self.split:
            return core.explore_parallel(
                fn, jobs, deadline=deadline, is_known=is_known
            )
        return core.explore(fn, deadline=deadline, is_known=is_known)
