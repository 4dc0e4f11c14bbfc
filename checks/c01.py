"""C01: SM4 block cipher equals its standard for every key and block."""
from vlib import *
import sc_sm4


def check(tier):
    r = Report("C01", "proof", "abstract interpretation of the linked IR over GF(2) polynomials (all key and data bits symbolic); every output bit's canonical form must equal that of the GB/T 32907 definition; S-box generated from its algebraic definition",
               ["clang's IR for x86-64 is the program", "callers pass 16-byte blocks"])
    r.absorb(run_scenarios(sc_sm4.jobs(tier)))
    r.need("scenarios", r.cov["scenarios"], 2)
    r.need("functions", len(r.fnset), 4)
    return r.finish()
