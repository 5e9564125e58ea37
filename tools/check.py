#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree."""
import os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import checks


def main():
    prop = sys.argv[1]
    try:
        n = checks.CHECKS[prop](prop)
    except vlib.CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    print("property=%s tier=%s seed=%d violations=%d" % (prop, vlib.TIER, vlib.SEED, n))
    return 1 if n else 0


if __name__ == "__main__":
    sys.exit(main())
