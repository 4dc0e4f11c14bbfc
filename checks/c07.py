from vlib import *
import sc_file


def check(tier):
    r = Report("C07", "other", "abstract interpretation of the file interfaces over a symbolic file system: written files and accept/refuse decisions must have the canonical form of the container definition",
               ["stdio semantics as modelled in engine/envmodels.py FS"])
    res = run_scenarios(sc_file.jobs(tier))
    r.absorb(res)
    return r.finish()
