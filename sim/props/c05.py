"""C05: MSM observables in the JSON products."""

from .pipeline import *  # noqa
from .pipeline import STUB

RUNS = {"quick": 9000, "thorough": 400000}
SHRINK = [("sources", "*", "segs")]
RULE = ("MSM1..MSM7 messages of seven constellations with boundary-biased masks, times and fields (invalid markers,"
        " empty messages), between other messages, over a lossy link, read and written in pieces of random size;"
        " every record of every MSM JSON product is compared with the reference decoder.")
REAL = REAL_ALL
ASSUME = ["field tables and signal tables of sim/spec.py (RTCM 10403) are right",
          "observables are compared within 1e-7 m, m/s, dB-Hz"]


def make(seed, i, tier):
    return fidelity_make("C05", seed, i, gen.MSM_NUMS, ("JSON", "JSON-B"), gen.EPH_NUMS + gen.BASE_NUMS)


def run(scn, root):
    return fidelity_run(scn, root, lambda p: p.startswith("MSM"))
