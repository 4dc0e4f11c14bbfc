from vlib import *
import sc_wb, sc_wbgcm


def check(tier):
    r = Report("C15", "other", "abstract interpretation of table generation and block function with every random matrix an uninterpreted invertible operator, every random permutation an uninterpreted bijection and every random number (masks included) free; then of both modes with the block functions' summaries: decryption must give back the message's variables, both tags must be SP 800-38D's polynomial of the emitted ciphertext, every ciphertext byte an encoding of GCM's",
               ["genMatpairM8/M32 and genPermutation4/8 deliver a matrix or permutation and its inverse", "the matrix products the models stand for are compared with the GF(2) product in the same run"])
    r.absorb(run_scenarios(sc_wbgcm.mask_jobs(tier) + sc_wb.mat_jobs([("Num", 8), ("Num", 32)]), procs=3, mem=9000 << 20, per=1))
    return r.finish()
