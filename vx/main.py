import argparse
import importlib
import os
import sys
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.selftest:
        from . import selftest

        sys.exit(selftest.main())
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from .report import Report, blame
    from . import load
    from .core import Unsupported, HarnessGap

    os.environ.setdefault("OMP_NUM_THREADS", "4")
    R = Report(a.pid, a.tier, seed)
    try:
        load.setup()
        mod = importlib.import_module(f"vx.props.{a.pid.lower()}")
        mod.run(R)
    except (Unsupported, HarnessGap) as e:
        R.undecided.append(f"check: {type(e).__name__}: {e}")
    except (Exception, SystemExit) as e:
        if os.environ.get("VX_DEBUG"):
            traceback.print_exc()
        made = getattr(e, "vx_constructor", None)
        if made and blame(e)[0] == "repo":
            R.record_failure("simulation", "a valid configuration gives a simulation", {"base": made[0], "options": made[1]}, blame(e)[1])
        else:
            R.undecided.append(f"check: the harness does not fit this tree: {type(e).__name__}: {e}")
    sys.exit(R.finish())


if __name__ == "__main__":
    main()
