from vlib import *
import sc_aes, sc_cbc, sc_file, sc_gcm, sc_life, sc_sm3, sc_sm4

KINDS = ("out-of-bounds", "uninitialised-read", "use-after-free", "double-free", "bad-free", "bad-realloc", "null-deref", "readonly-write", "input-write", "leak", "shift-overflow", "division-by-zero")


def check(tier):
    r = Report("C08", "other", "abstract interpretation with bounds, initialisation, lifetime and ownership of every memory object tracked per byte: no access outside an object, to released memory, through NULL, or of bytes never written; no write to const inputs; no block lost; no undefined shift or division",
               ["callers pass buffers of the lengths they state", "OpenSSL, stdio and the allocator behave as documented (engine/envmodels.py)"])
    jobs = sc_sm4.jobs(tier) + sc_sm4.key_jobs(tier) + sc_aes.jobs(tier) + sc_sm3.jobs(tier) + sc_gcm.jobs(tier) + sc_gcm.small_jobs(tier) + \
        sc_gcm.parallel_jobs(tier) + sc_cbc.jobs(tier) + sc_file.jobs(tier) + sc_life.jobs(tier)
    r.absorb(run_scenarios(jobs), alarms=True, obs=False, kinds=KINDS)
    return r.finish()
