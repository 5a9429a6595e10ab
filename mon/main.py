import argparse
import importlib
import os
import sys
import time


def main():
    t0 = time.time()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        sys.exit(2)
    from . import env

    try:
        env.load()
    except BaseException as e:
        print(f"cannot import the code under test: {e!r}")
        sys.exit(2)
    from . import common

    module = importlib.import_module(f"mon.checks.{a.prop.lower()}")
    if a.replay:
        code = common.replay(a.prop, module, a.replay)
    else:
        code = common.run_check(a.prop, module, a.tier, a.seed, t0, a.jobs)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
