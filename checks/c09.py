from vlib import *
import sc_fault, sc_file

KINDS = ("null-deref", "use-after-free", "double-free", "bad-free", "bad-stream", "use-after-close", "leak")


def check(tier):
    r = Report("C09", "other", "abstract interpretation with one environment failure injected per run (k-th allocation, stream operation or block-function call): the call must return its failure value on the failing path, close what it opened, release what it acquired and not touch the missing object",
               ["one failure at a time", "malloc/stdio contracts as modelled in engine/envmodels.py"])
    res = run_scenarios(sc_fault.jobs(tier) + sc_file.fault_jobs(tier))
    r.absorb(res, alarms=True, kinds=KINDS)
    hits = sum(x["notes"].get("hit", 0) for x in res)
    r.count("failure_points", hits)
    r.need("failure points reached", hits, 150)
    return r.finish()
