#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree."""
import argparse, importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa import facts
from sa.report import Report


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="*")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.setup:  # builds the driver and warms the dependency build
        try:
            facts.ensure()
        except facts.BuildError as e:
            print(str(e)[-3000:])
            return 1
        return 0
    rc = 0
    prog = None
    from sa.registry import RULES
    from sa.prog import Program
    for p in a.prop if a.prop != ["all"] else sorted(RULES):
        rep = Report(p, a.tier)
        try:
            if prog is None:
                prog = Program()
            mod, fn = RULES[p].rsplit(".", 1)
            getattr(importlib.import_module("sa.rules." + mod), fn)(prog, rep)
        except facts.BuildError as e:
            rep.violation("build", "/repo", "the tree does not build, nothing can be decided: %s" % str(e)[-1500:])
        except Exception as e:
            traceback.print_exc()
            rep.violation("analysis", "-", "the analysis could not be completed (%s: %s)" % (type(e).__name__, e))
        rc |= rep.emit()
    return rc


if __name__ == "__main__":
    sys.exit(main())
