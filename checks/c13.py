from vlib import *
import sc_wb


def check(tier):
    r = Report("C13", "other", "abstract interpretation of key set-up and block function with every random matrix an uninterpreted invertible operator and every random number free, except that the choice among the self-equivalences is partitioned so that each is taken in some run; the output must be SM4's polynomial (S-box look-ups normalised over the affine span of their index)",
               ["genMatpairM32 delivers a matrix and its inverse", "the matrix products the models stand for are compared with the GF(2) product in the same run"])
    res = run_scenarios(sc_wb.se_jobs(tier) + sc_wb.mat_jobs([("Num", 32), ("Vec", 32), ("Mat", 32)]))
    r.absorb(res)
    r.count("self_equivalence_choices", sum(x["notes"].get("choices", 0) for x in res))
    return r.finish()
