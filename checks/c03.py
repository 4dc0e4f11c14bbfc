from vlib import *
import sc_sm3


def check(tier):
    r = Report("C03", "other", "abstract interpretation over GF(2) polynomials with value-numbered modular addition: every digest bit must have the canonical form of the GB/T 32905 definition, for each enumerated message length and chunking, all message bits symbolic; length encoding for huge totals with the compression summarised")
    r.absorb(run_scenarios(sc_sm3.jobs(tier)))
    return r.finish()
