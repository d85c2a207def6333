#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    fn, targets = props.CHECKS[prop]
    try:
        vlib.build(targets)
        c = vlib.Check(prop, tier, seed)
        fn(c)
        return c.finish()
    except vlib.CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 4


sys.exit(main())
