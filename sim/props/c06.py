"""C06: MARGO tables."""

from .pipeline import *  # noqa
from .pipeline import STUB

RUNS = {"quick": 9000, "thorough": 400000}
SHRINK = [("sources", "*", "segs")]
RULE = ("MSM1..MSM7 messages as in C05, in MARGO and JARGO modes with random settings (ambiguity and lock-time tables,"
        " GLONASS slots, leap seconds); every header and every cell of every .obs table is compared with the reference.")
REAL = REAL_ALL
ASSUME = ["field tables and signal tables of sim/spec.py are right",
          "cells are compared within half a unit of the last printed decimal"]


def make(seed, i, tier):
    mode = ("MARGO", "JARGO")[i % 2]
    return fidelity_make("C06", seed, i, gen.MSM_NUMS, ("MARGO", "JARGO"),
                         gen.MSM_NUMS if mode == "MARGO" else gen.EPH_NUMS + gen.BASE_NUMS)


def run(scn, root):
    return fidelity_run(scn, root, lambda p: p.endswith(".obs"))
