from vlib import *
import sc_cbc


def check(tier):
    r = Report("C04", "other", "abstract interpretation of the CBC interfaces with the block permutation uninterpreted (inverse pairs cancel; SM4 expanded): output bytes, reported lengths and refusals must have the canonical form of SP 800-38A over the padded message",
               ["the white-box block functions are treated as mutually inverse permutations"])
    r.absorb(run_scenarios(sc_cbc.jobs(tier)))
    return r.finish()
