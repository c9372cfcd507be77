#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's current tree."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common, registry


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    t0 = time.time()
    res = registry.run(prop, tier)
    return common.finish(res, t0, tier)


if __name__ == "__main__":
    sys.exit(main())
