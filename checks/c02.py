from vlib import *
import sc_gcm


def check(tier):
    r = Report("C02", "other", "abstract interpretation, block function uninterpreted, H symbolic: every ciphertext and tag bit's canonical polynomial must equal the SP 800-38D definition, for each enumerated (iv length, aad length, chunking)",
               ["chunks before the last are multiples of 16 bytes", "AAD is supplied by one call, before the data"])
    r.absorb(run_scenarios(sc_gcm.jobs(tier) + sc_gcm.small_jobs(tier)))
    return r.finish()
