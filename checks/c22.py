from vlib import *
from c08 import KINDS
import sc_wb, sc_wbgcm


def check(tier):
    r = Report("C22", "other", "abstract interpretation with bounds, initialisation, lifetime and ownership of every memory object tracked per byte, random matrices and permutations uninterpreted: no access outside an object, to released memory, through NULL, or of bytes never written; no write to const inputs; no block lost",
               ["callers pass buffers of the lengths they state", "WBMatrix's generators write exactly the matrices and permutations passed to them", "the allocator behaves as documented (engine/envmodels.py)"])
    J = sc_wb.wbaes_jobs(tier) + sc_wb.wbsm4_jobs(tier) + sc_wb.se_jobs(tier) + sc_wbgcm.ee_jobs(tier) + sc_wbgcm.mask_jobs(tier)
    if tier == "quick":
        Q = ("wbaes key=5 in-place", "wbaes key=20", "wbsm4 enc key=7 in-place", "wbsm4 enc key=33", "wbsm4 dec dummy rounds at 5,32",
             "se_wbsm4 enc key=3 in-place", "se_wbsm4 dec key=40", "se_wbsm4 dec second key", "white-box GCM (ee) key=5, messages 1", "white-box GCM (mask) key=5, messages 1")
        J = [j for j in J if j[0] in Q]
        r.need("white-box scenarios", len(J), len(Q))
    J.sort(key=lambda j: "GCM" not in j[0])
    r.absorb(run_scenarios(J, procs=5, mem=9000 << 20, per=1), alarms=True, obs=False, kinds=KINDS)
    return r.finish()
