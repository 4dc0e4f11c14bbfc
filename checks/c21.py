from vlib import *
from c08 import KINDS
import sc_app, sc_fpe


def check(tier):
    r = Report("C21", "other", "abstract interpretation with bounds, initialisation, lifetime and ownership of every memory object tracked per byte: no access outside an object, to released memory, through NULL, or of bytes never written; no write to const inputs; no block lost, on any refusing path either",
               ["strings are terminated and output buffers hold as many bytes as the input string with its terminator", "OpenSSL's big numbers and the allocator behave as documented (engine/bn.py, engine/envmodels.py)"])
    r.absorb(run_scenarios(sc_fpe.mem_jobs(tier) + sc_app.jobs(tier)), alarms=True, obs=False, kinds=KINDS)
    return r.finish()
