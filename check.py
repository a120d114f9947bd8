#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current tree.

Exit 0: it held on everything explored.  Exit 1, with a VIOLATION line: it is broken.
Exit 2: the check itself could not run."""
import os, random, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pslib import build, engine, props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = engine.Check(prop, tier, seed)
    rng = random.Random("%s/%s/%d" % (prop, tier, seed))
    try:
        getattr(props, prop)(c, rng)
        code = c.finish(props.ASSUME.get(prop, props.ASSUME["*"]))
    except build.ToolError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return code


if __name__ == "__main__":
    sys.exit(main())
