from vlib import *
import sc_aes, sc_sm4


def check(tier):
    r = Report("C05", "other", "abstract interpretation: for each key length the round keys / the AES key schedule must be those of the 16-byte key defined by PKCS#7 padding or truncation; AES schedules and block functions of OpenSSL are modelled as an uninterpreted keyed permutation pair",
               ["OpenSSL's AES_set_*_key/AES_encrypt/AES_decrypt implement AES"])
    res = run_scenarios(sc_aes.jobs(tier) + sc_sm4.key_jobs(tier))
    r.absorb(res)
    # a key read past its end is an error of key handling
    for x in res:
        al = [a for a in x["alarms"] if a["kind"] == "out-of-bounds"]
        r.ob("%s: only the key's own bytes are read" % x["name"], not al, "; ".join("%(site)s: %(detail)s" % a for a in al[:3]))
    return r.finish()
