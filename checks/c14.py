from vlib import *
import sc_wb, sc_wbgcm


def check(tier):
    r = Report("C14", "other", "abstract interpretation of table generation and block function with every random matrix an uninterpreted invertible operator, every random permutation an uninterpreted bijection and every random number free: each output byte must be an encoding of AES-128's; then of the mode with that summary as block function: outputs and tags must be the polynomials of SP 800-38D",
               ["genMatpairM8/M32 and genPermutation4/8 deliver a matrix or permutation and its inverse", "the matrix products the models stand for are compared with the GF(2) product in the same run"])
    r.absorb(run_scenarios(sc_wbgcm.ee_jobs(tier) + sc_wb.mat_jobs([("Num", 8), ("Num", 32)]), procs=6, mem=6000 << 20, per=1))
    return r.finish()
