from vlib import *
import sc_app


def check(tier):
    r = Report("C18", "other", "abstract interpretation from the application call to the block function: digits and characters symbolic (Chinese characters as integers, partitioned by their number of base-12 digits), machine arithmetic followed as linear integer forms where it cannot wrap; output must be FF1/FF3 of the free positions with the kept ones as tweak, kept positions unchanged",
               ["OpenSSL's BN_* functions compute what they are documented to compute and do not fail", "the block function is uninterpreted, its key set-up recorded", "the C locale"])
    r.absorb(run_scenarios(sc_app.jobs(tier)))
    return r.finish()
