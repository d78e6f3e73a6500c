#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's working tree
   check.py setup                       build the simulators"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.common import *


def main():
    if len(sys.argv) < 2:
        say(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from lib import sat
    if prop == "setup":
        sat.build(["plain", "asan"])
        from lib import box
        box.build_tools()
        from lib import lsim
        lsim.build()
        from lib import fsim
        fsim.build()
        say("built")
        return 0
    if prop.startswith("S"):
        return sat.check(prop, tier, seed)
    if prop == "replay" and tier.endswith(".json"):
        from lib import script
        return script.replay(tier)
    if prop.startswith("L"):
        from lib import lsim
        return lsim.check(prop, tier, seed)
    if prop.startswith("F"):
        from lib import fsim
        return fsim.check(prop, tier, seed)
    if prop.startswith("R"):
        from lib import script
        return script.check(prop, tier, seed)
    say("unknown property " + prop)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        say("ERROR: %s" % e)
        sys.exit(2)
