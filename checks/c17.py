from vlib import *
import sc_fpe


def check(tier):
    r = Report("C17", "other", "abstract interpretation with every digit, tweak byte and block-function output symbolic: big numbers are linear integer forms over digits and quotients, digits are finite domains computed by tabulation; every output character must be SP 800-38G's digit and the tags of both directions the same polynomial, for each enumerated (radix, length, tweak length)",
               ["OpenSSL's BN_* functions compute what they are documented to compute and do not fail", "the block function is uninterpreted"])
    r.absorb(run_scenarios(sc_fpe.jobs(tier, ("ff1_cmac", "ff3_gmac"))))
    return r.finish()
