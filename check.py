"""check.py PROP [--tier T] [--seed N] [--runs N] [--workers N] [--digest F] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import engine  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--runs", type=int)
    p.add_argument("--workers", type=int)
    p.add_argument("--digest")
    p.add_argument("--replay")
    a = p.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.replay:
        return engine.replay(a.prop, a.replay)
    try:
        return engine.check(a.prop, a.tier, a.seed, a.runs, a.workers, a.digest)
    except engine.HarnessError as e:
        print("HARNESS ERROR %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
