#!/opt/venv/bin/python
"""run.py <property> [--replay FILE]   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import importlib
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None:      # same iteration order of sets in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402

LEVEL = {}


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from mc import env  # noqa: F401
    mod = importlib.import_module("checks." + prop.lower())
    ctx = core.Ctx(prop, getattr(mod, "LEVEL", "model_checking"), tier, seed)
    ctx.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            case = json.load(f)
        print(json.dumps(case, indent=1))
        if hasattr(mod, "replay"):
            try:
                mod.replay(ctx, case["case"])
            except core.Stop:
                pass
            for s, (m, c) in ctx.violations.items():
                print("REPRODUCED %s: %s" % (s, m))
            return 1 if ctx.violations else 0
    try:
        mod.run(ctx)
    except core.Stop:
        ctx.exhaustive = False
    except Exception:
        import traceback
        tb = traceback.format_exc()
        ctx.exhaustive = False
        if core.REPO + "/" not in tb and "core.Hang" not in tb:
            traceback.print_exc()
            ctx.finish()
            return 2
        # the code under test raised where the model says it must not
        try:
            ctx.violation("raised:" + tb.strip().splitlines()[-1], tb[-1500:], dict(traceback=tb))
        except core.Stop:
            pass
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
