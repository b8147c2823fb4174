#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree.

Exit 0: it held on everything explored; 1: a VIOLATION line says what broke; 3: no verdict.
VERIF_SEED and VERIF_TIER (quick, thorough) choose what is explored."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver import core, props  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    fn, level = props.PROPS[prop]
    c = core.Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        fn(c)
        return c.finish(level, props.ASSUME)
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        c.cleanup()


if __name__ == "__main__":
    sys.exit(main())
