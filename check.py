#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree. Tier from VERIF_TIER."""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if not os.path.exists(core.SYMX):
        r = core.run(["make", "-C", os.path.join(core.VERIF, "engine")], timeout=900)
        if r.returncode != 0:
            print(r.stdout[-2000:]); return 2
    ctx = core.Context(prop, tier)
    try:
        mod = importlib.import_module("p_" + prop.lower())
        return mod.check(ctx)
    except core.CheckError as e:
        print("ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.cleanup()
        else:
            print("kept", ctx.dir)


sys.exit(main())
