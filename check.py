#!/usr/bin/env python3
"""check.py Cxx [quick|thorough] - decides one property on the working tree of /repo.
check.py replay FILE - runs the histories of a replay file again and prints them."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf, plans


def main():
    prop = sys.argv[1]
    if prop == "replay":
        return plans.replay(sys.argv[2])
    if prop == "setup":
        return plans.setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ck = vf.Check(prop, tier)
    try:
        ck.build()
        plans.PLANS[prop](ck)
        return ck.finish()
    except vf.Broken as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    finally:
        ck.close()


if __name__ == "__main__":
    sys.exit(main())
