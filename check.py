#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER)."""
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver
import props


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        return props.setup()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    agg = driver.Agg()
    spec = props.PROPS[prop]
    violation = None
    try:
        spec["run"](agg, seed, tier)
    except driver.Violation as v:
        violation = v
    except driver.Trouble as t:
        print("no verdict on %s: %s" % (prop, t))
        return 2
    if violation is not None:
        for key, _ in driver.known_findings(prop):
            if key in violation.what:
                violation = None
                break
    return driver.finish(prop, tier, seed, t0, agg, spec["rule"], spec.get("level", "exploration"), spec["assumptions"], violation)


if __name__ == "__main__":
    sys.exit(main())
