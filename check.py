#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   |   check.py replay <file>   |   check.py setup
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import common


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if a[0] == "setup":
        from lib import engine
        engine.build(["base"])
        return 0
    if a[0] == "replay":
        from lib import engine
        return engine.replay(os.path.abspath(a[1]))
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    print("property %s tier %s VERIF_SEED %d" % (prop, tier, seed), flush=True)
    from lib import engine
    rc = engine.check(prop, tier, seed)
    common.prune_cache()
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
