from vlib import *
from c08 import KINDS
import sc_key


def check(tier):
    r = Report("C19", "other", "abstract interpretation with every byte of the context a distinct symbol: what import rebuilds must be the exported symbols byte for byte; truncated, oversized and faulty files enumerated; memory bounds, lifetime and ownership tracked throughout",
               ["stdio and the allocator behave as documented (engine/envmodels.py)"])
    r.absorb(run_scenarios(sc_key.jobs(tier)), alarms=True, kinds=KINDS)
    return r.finish()
