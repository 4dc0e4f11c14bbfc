from vlib import *
import sc_life


def check(tier):
    r = Report("C10", "other", "abstract interpretation of each context's life: at every free() the released block must hold no byte that depends on key or message data, and when the context's free function returns every block the context owned has been released exactly once",
               ["every byte of a context that is no pointer or round count is assumed to hold key-dependent data", "the code is analysed after LLVM's attribute inference, SROA and dead-store elimination, because the library is built with -O3 and a removable memset erases nothing"])
    res = run_scenarios(sc_life.jobs(tier))
    r.absorb(res, alarms=True)
    r.need("life cycles", len(res), 30)
    return r.finish()
