#!/usr/bin/env python3
"""python3 run.py Cxx [--part NAME --case N]   (VERIF_SEED, VERIF_TIER)"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import common  # noqa: E402


def main():
    prop = sys.argv[1]
    opts = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    try:
        mod = importlib.import_module("checks." + prop.lower())
        ctx = common.Ctx(prop, mod.RULE, getattr(mod, "ASSUMPTIONS", ()))
        if "--case" in opts:
            ctx.only_case = int(opts["--case"])
        if "--part" in opts:
            ctx.only_part = opts["--part"]
        return mod.main(ctx)
    except common.Inconclusive as e:
        print("INCONCLUSIVE: %s" % e)
        # what was seen before stands
        return 1 if ctx.viols and ctx.finish(0, 0) == 1 else 3
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
