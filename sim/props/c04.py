"""C04: ephemeris and station messages, field by field."""

from .pipeline import *  # noqa
from .pipeline import STUB

RUNS = {"quick": 8000, "thorough": 400000}
SHRINK = [("sources", "*", "segs")]
RULE = ("Ephemeris and station messages with boundary-biased random fields, between observables, malformed and"
        " proprietary messages, over a lossy link, read in pieces of a random size, written through buffers of a"
        " random size; every record of every EPH and BASE product is compared with the reference decoder.")
REAL = REAL_ALL
ASSUME = ["field tables of sim/spec.py (RTCM 10403) are right", "numbers are compared with 1e-12 relative tolerance"]


def make(seed, i, tier):
    return fidelity_make("C04", seed, i, gen.EPH_NUMS + gen.BASE_NUMS, ("JSON", "JSON-B", "JARGO"), gen.MSM_NUMS)


def run(scn, root):
    return fidelity_run(scn, root, lambda p: p.startswith(("EPH/", "BASE/")))
