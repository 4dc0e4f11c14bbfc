from vlib import *
from effects import Effects

# table generation is randomised by design and not covered
RANDOMISED = ("_gen_table", "_gen_aes_table", "_gen_gcm_table", "WBCRYPTO_fpe_app_init")


def check(tier):
    r = Report("C20", "other", "interprocedural effect analysis: no public operation can store to, or read, a global object that any function changes, nor call a function with state or inputs of its own (random numbers, clock, environment, ...); addresses of changeable globals never reach memory",
               ["libc, OpenSSL and the OpenMP runtime are thread-safe except for the functions listed in engine/effects.py", "atomic or lock-protected globals are not recognised as safe", "table generation (randomised by design) is excluded"])
    E = Effects(module("big"))
    W_ = E.written()
    entries = sorted(n for n, f in E.funcs.items() if n.startswith("WBCRYPTO_") and not f.d["internal"] and not any(x in n for x in RANDOMISED))
    r.need("public operations", len(entries), 60)
    for n in entries:
        S = E.sum[n]
        bad = []
        for k in sorted(S, key=str):
            if k[0] == "x":
                bad.append(("%s calls %s" % (n, k[1]), E.chain(n, k)))
            elif k[1][0] == "g" and (k[0] in ("w", "e") or k[1][1] in W_):
                bad.append(("%s %s the global %s" % (n, {"w": "changes", "e": "stores the address of", "r": "depends on"}[k[0]], E.glob[k[1][1]].get("dname") or k[1][1]), E.chain(n, k)))
        r.ob(bad[0][0] if bad else n, not bad, "; ".join(b[1] for b in bad), sample="%s: touches no changeable global object and no hidden input" % n)
    r.count("functions_analysed", len(E.funcs))
    r.count("mutable_globals", sum(1 for g in E.glob if E.mutable(g)))
    r.count("globals_changed_by_someone", len(W_))
    r.count("public_operations", len(entries))
    r.count("fixpoint_rounds", E.rounds)
    r.cov["changed_globals"] = sorted(W_)
    return r.finish()
