"""Verdicts, evidence and known findings."""
import json
import os
import re
import sys
import time
import traceback

from mc import env

MAX_REPORTED = 8


def known_findings():
    """Entries `known: property=<id> key=<key> <text>` of KNOWN_FINDINGS.txt (fixed: lines suppress nothing)."""
    out = {}
    path = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


class Report:
    def __init__(self, prop, level, assumptions=()):
        self.prop, self.level = prop, level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.violations = []
        self.known_hit = set()
        self.known = known_findings()
        self.coverage = {}
        self.samples = []

    def add(self, **counts):
        for key, v in counts.items():
            if isinstance(v, bool):
                self.coverage[key] = self.coverage.get(key, True) and v
            elif isinstance(v, (int, float)):
                self.coverage[key] = self.coverage.get(key, 0) + v
            elif isinstance(v, dict):
                d = self.coverage.setdefault(key, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv if isinstance(vv, (int, float)) else vv
            else:
                self.coverage[key] = v

    def sample(self, s, limit=5):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, what, replay, key=None):
        """`what`: text; `replay`: JSON-able description that reproduces it; `key`: identity for known findings."""
        if key is not None and (self.prop, key) in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[(self.prop, key)]))
            return
        self.violations.append(what)
        if len(self.violations) > MAX_REPORTED:
            return
        d = os.path.join(env.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "replay": replay, "how":
                       "bash run.sh %s --replay %s" % (self.prop, path)}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("   " + str(what)[:1500].replace("\n", "\n   "))
        sys.stdout.flush()

    def finish(self):
        cov = dict(self.coverage)
        cov["samples"] = self.samples
        ev = {
            "property": self.prop, "tier": "thorough" if env.THOROUGH else "quick", "seed": env.SEED,
            "level": self.level, "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        d = os.path.join(env.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        short = {k: v for k, v in cov.items() if not isinstance(v, (list, dict))}
        print("%s %s: %s  (%.1fs)" % (self.prop, "VIOLATED" if self.violations else "held", short, time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def short_tb():
    return traceback.format_exc(limit=-6)
