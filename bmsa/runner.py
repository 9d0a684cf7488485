"""Common frame of all checks: loads the program, runs one property's analysis, writes evidence, sets the exit code.

usage: python3 -m bmsa.runner <property>      (VERIF_TIER, VERIF_SEED from the environment)
"""
import importlib
import json
import os
import signal
import sys
import time
import traceback

from . import extract
from .extract import AnalysisBroken
from .interp import Program, TooManyPaths

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, pid, prog, tier):
        self.pid, self.p, self.tier = pid, prog, tier
        self.thorough = tier == "thorough"
        self.obligations = 0
        self.violations = []       # (key, message)
        self.undecided = {}
        self.counts = {}
        self.samples = []
        self.units = set()         # analysed functions
        self.stats = {}
        self.rules = []
        self.assumptions = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, cond, key, msg="", sample=None):
        """one obligation; `key` identifies the construct and must be stable across runs"""
        self.obligations += 1
        if not cond:
            self.violate(key, msg)
        elif sample is not None and len(self.samples) < 12:
            self.samples.append(sample)
        return cond

    def violate(self, key, msg):
        for k, m in self.violations:
            if k == key:
                return
        self.violations.append((key, msg))

    def undecide(self, key, why=""):
        self.undecided[key] = why

    def need(self, name, n):
        """fail as analysis-broken when fewer instances than confirmed by hand were found"""
        if self.counts.get(name, 0) < n:
            raise AnalysisBroken("%s: only %d instances of '%s' (at least %d expected)" % (self.pid, self.counts.get(name, 0), name, n))

    def saw(self, run):
        self.units |= run.entered


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]


def registry():
    from . import checks
    return checks.REGISTRY


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        mod, fn = registry()[pid]
        prog = Program(extract.load())
        ctx = Ctx(pid, prog, tier)
        limit(780 if tier == "quick" else 6 * 3600)
        m = importlib.import_module("bmsa.checks." + mod)
        getattr(m, fn)(ctx)
        if not ctx.obligations:
            raise AnalysisBroken("no obligation was generated")
    except Exception as ex:
        known = {k["key"] for k in load_known(pid)}
        if "ctx" in locals() and [k for k, _ in ctx.violations if k not in known]:
            # what was found before the analysis gave up stands
            sys.stderr.write("analysis incomplete: %s: %s\n" % (type(ex).__name__, ex))
            if os.environ.get("BMSA_TRACE"):
                traceback.print_exc()
            return report(ctx, prog, tier, seed, t0)
        sys.stderr.write("ANALYSIS-BROKEN property=%s %s: %s\n" % (pid, type(ex).__name__, ex))
        if os.environ.get("BMSA_TRACE"):
            traceback.print_exc()
        return 2
    return report(ctx, prog, tier, seed, t0)


class OutOfTime(AnalysisBroken):
    pass


def limit(seconds):
    """a check which does not end reports what it has found so far, or that it is broken"""
    def alarm(sig, frame):
        raise OutOfTime("time limit of %d s" % seconds)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(seconds)


def report(ctx, prog, tier, seed, t0):
    pid = ctx.pid
    known = load_known(pid)
    bykey = {k["key"]: k for k in known if k.get("status", "open") == "open"}
    new = []
    for key, msg in ctx.violations:
        if key in bykey:
            print("KNOWN-FINDING: property=%s %s" % (pid, bykey[key]["what"]))
        else:
            new.append((key, msg))
    units = sorted(ctx.units)
    cov = {
        "explanation": "Rule(s) applied: " + " | ".join(ctx.rules),
        "obligations_checked": ctx.obligations,
        "functions_analysed": len(units),
        "paths": ctx.stats.get("paths", 0),
        "counts": ctx.counts,
        "samples": ctx.samples[:12],
        "undecided": len(ctx.undecided),
        "undecided_list": sorted(map(str, ctx.undecided))[:20],
        "known_findings": [k for k, _ in ctx.violations if k in bykey],
        "translation_units": len(prog.db.get("units", [])),
        "function_names": sorted(set(prog.funcs[u]["q"] for u in units if u in prog.funcs))[:60],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("property=%s tier=%s obligations=%d functions=%d paths=%d undecided=%d wall=%.1fs" % (
        pid, tier, ctx.obligations, len(units), ctx.stats.get("paths", 0), len(ctx.undecided), time.time() - t0))
    rp = os.path.join(d, pid + ".violation.txt")
    if new:
        with open(rp, "w") as f:
            for key, msg in new:
                f.write("%s\n    %s\n" % (key, msg))
        for key, msg in new[:25]:
            print("  %s\n      %s" % (key, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
