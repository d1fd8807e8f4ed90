"""Collects what a rule analysed and what it found; writes the evidence file."""
import json, os, sys, time
from . import facts

EVID = os.path.join(facts.VERIF, "evidence")
KNOWN = os.path.join(facts.VERIF, "known-findings.json")


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = {}       # key -> (loc, msg)
        self.counts = {}     # name -> measured
        self.floors = {}
        self.rules = []
        self.assumptions = []
        self.samples = []
        self.functions = set()

    def rule(self, text):
        self.rules.append(" ".join(text.split()))

    def assume(self, text):
        self.assumptions.append(" ".join(text.split()))

    def violation(self, key, loc, msg):
        """key identifies the violated instance without line numbers"""
        if key not in self.viol:
            self.viol[key] = (loc, msg)

    def count(self, name, n, floor=None):
        self.counts[name] = self.counts.get(name, 0) + n
        if floor is not None:
            self.floors[name] = floor

    def sample(self, s, limit=12):
        if len(self.samples) < limit and s not in self.samples:
            self.samples.append(s)

    def analysed(self, keys):
        self.functions.update(keys)

    def finish_floors(self):
        for n, f in self.floors.items():
            if self.counts.get(n, 0) < f:
                self.violation("coverage:" + n, "-", "rule found only %d instances of '%s', at least %d are known to exist: the anchor of the rule is gone" % (self.counts.get(n, 0), n, f))

    def emit(self):
        self.finish_floors()
        known = {}
        if os.path.exists(KNOWN):
            for k in json.load(open(KNOWN))["known"]:
                if k["property"] == self.prop:
                    known[k["key"]] = k
        new = {k: v for k, v in self.viol.items() if k not in known}
        old = {k: v for k, v in self.viol.items() if k in known}
        os.makedirs(EVID, exist_ok=True)
        rep = os.path.join(EVID, self.prop + ".report.txt")
        with open(rep, "w") as f:
            f.write("property %s (%s)\n" % (self.prop, self.tier))
            for r in self.rules:
                f.write("rule: %s\n" % r)
            for k, (loc, msg) in sorted(new.items()):
                f.write("VIOLATION %s\n  at %s\n  key %s\n" % (msg, loc, k))
            for k, (loc, msg) in sorted(old.items()):
                f.write("KNOWN %s\n  at %s\n  key %s\n" % (msg, loc, k))
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "static analysis of the compiler's MIR (mir_built, all workspace crates) of the current /repo tree; nothing is executed",
                "rules": self.rules,
                "instances": self.counts,
                "instance_floors": self.floors,
                "functions_analysed": len(self.functions),
                "function_sample": sorted(self.functions)[:40],
                "samples": self.samples,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": [{"key": k, "at": v[0], "what": v[1]} for k, v in sorted(new.items())],
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, (loc, msg) in sorted(old.items()):
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, known[k]["what"], loc))
        print("%s: %s, %d functions analysed, %d violations" % (self.prop, ", ".join("%s=%d" % x for x in sorted(self.counts.items())), len(self.functions), len(new)))
        if new:
            for k, (loc, msg) in sorted(new.items()):
                print("  %s: %s [%s]" % (loc, msg, k))
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        return 0
