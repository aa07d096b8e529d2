#!/usr/bin/env python3
"""Checks one property: check.py C01 [--tier quick|thorough] [--seed N] | check.py C01 --replay FILE

Exit 0: the property held on everything explored. Exit 1: it was violated (a VIOLATION line names the
trace which shows it). Exit 2: the check itself failed."""
import argparse, json, os, shutil, sys, tempfile, time, traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent
sys.path.insert(0, str(ROOT / "tools"))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
import impl, plan, runner


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    args = ap.parse_args()
    if args.property not in plan.PLAN:
        print("no such property: %s" % args.property)
        return 2
    run = runner.Run(args.property, args.tier, args.seed)
    try:
        return run.replay(args.replay) if args.replay else run.check()
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s: the check failed" % args.property)
        return 2
    finally:
        run.clean()


if __name__ == "__main__":
    sys.exit(main())
