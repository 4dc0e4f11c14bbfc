from vlib import *
import sc_wb


def check(tier):
    r = Report("C11", "other", "abstract interpretation of table generation and encryption with every random matrix an uninterpreted invertible operator, every random permutation an uninterpreted bijection and every random number free; a loop that fills a table is summarised as a function of its index; the output must be AES-128's polynomial",
               ["genMatpairM8/M32 deliver a matrix and its inverse, genPermutation4 a permutation and its inverse", "the matrix products the models stand for are compared with the GF(2) product in the same run"])
    r.absorb(run_scenarios(sc_wb.wbaes_jobs(tier) + sc_wb.mat_jobs([("Num", 8), ("Num", 32), ("Vec", 8), ("Vec", 32), ("Mat", 8), ("Mat", 32)]), procs=6, mem=5000 << 20, per=1))
    return r.finish()
