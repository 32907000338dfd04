"""Command line: run.py PROPERTY [--tier T] [--unit NAME ...] | --replay FILE"""
import argparse
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", choices=["quick", "thorough"])
    ap.add_argument("--unit", action="append")
    ap.add_argument("--replay")
    args = ap.parse_args()
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 0)

    # String hashing decides the order of sets, so it must be a function of
    # the seed.
    want = str(seed % 4294967296)
    if args.replay:
        with open(args.replay) as f:
            want = json.load(f).get("hashseed") or want
    if os.environ.get("PYTHONHASHSEED") != want:
        os.environ["PYTHONHASHSEED"] = want
        os.execv(sys.executable,
                 [sys.executable, "-B", os.path.abspath(__file__)]
                 + sys.argv[1:])

    sys.dont_write_bytecode = True
    sys.path[0] = ROOT
    from pbt import core
    if args.replay:
        return core.replay(args.replay)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return core.run(args.property, tier, seed, args.unit)


if __name__ == "__main__":
    try:
        status = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        status = 2
    sys.stdout.flush()
    sys.exit(status)
