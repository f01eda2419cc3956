#!/usr/bin/env python3
"""check.py PROPERTY: runs the check of one property (VERIF_TIER, VERIF_SEED from the environment)."""
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    import harness
    import registry
    if sys.argv[1] == "--setup":
        import shutil
        for tool in ("clang++",):
            if not shutil.which(tool):
                print("missing", tool)
                return 3
        print("nothing to build ahead: every check builds from /repo's working tree")
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = harness.Ctx(prop, tier, seed)
    try:
        registry.CHECKS[prop](ctx)
        return ctx.finish()
    except Exception:
        traceback.print_exc()
        print("%s: no verdict" % prop)
        return 3
    finally:
        import shutil
        shutil.rmtree(ctx.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
