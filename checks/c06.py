from vlib import *
import sc_gcm


def check(tier):
    r = Report("C06", "other", "abstract interpretation of the outlined OpenMP regions: every iteration is analysed as its own thread, accesses of different threads to the same cell with one writing are races, and the joined result must have the canonical form of SP 800-38D; iteration orders ascending and descending; also without OpenMP",
               ["OpenMP runtime semantics as modelled in engine/omp.py"])
    res = run_scenarios(sc_gcm.omp_jobs(tier) + sc_gcm.parallel_jobs(tier))
    r.absorb(res)
    r.count("parallel_regions", sum(x["notes"].get("regions", 0) for x in res))
    r.count("iterations", sum(x["notes"].get("iterations", 0) for x in res))
    return r.finish()
