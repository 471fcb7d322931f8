import argparse, importlib, os, sys, traceback
from . import common
from .registry import CHECKS


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.pid not in CHECKS:
        print("unknown property", a.pid, file=sys.stderr)
        return 2
    ctx = common.Ctx(a.pid, a.tier, a.seed)
    try:
        mod = importlib.import_module("vf." + CHECKS[a.pid])
        mod.run(ctx)
        return ctx.finish()
    except common.CheckError as e:
        print("check error:", e, file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


sys.exit(main())
