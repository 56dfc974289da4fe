#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   -- or --   check.py replay FILE"""
import os, sys, json, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, plans


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop == "replay":
        case = json.load(open(sys.argv[2]))
        ctx = core.Ctx(case["property"], "quick", 1)
        try:
            plans.replay(ctx, case)
            for st in ctx.stages:
                for m in st.mismatches:
                    print("VIOLATION property=%s replay=%s" % (ctx.prop, sys.argv[2]))
                    print(" ", m["sig"], m["what"])
                    return 1
            print("not reproduced")
            return 0
        finally:
            ctx.close()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = core.Ctx(prop, tier, seed)
    try:
        level, assumptions = plans.run(ctx)
        return core.finish(ctx, level, assumptions)
    except core.CheckError as e:
        # what was found before the machinery stopped still counts
        ctx.stages = core.Stage.live
        if isinstance(e, core.Crash):
            st = core.Stage("execution of the real code")
            st.mismatch("crash", str(e), dict(cmd=str(e)[:200]))
        known = core.known_findings(prop)
        if any(m["sig"] not in known for st in ctx.stages for m in st.mismatches):
            return core.finish(ctx, "model_checking", [])
        print("ERROR property=%s %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        ctx.close()


sys.exit(main())
