#!/usr/bin/env python3
"""Author's helper (no check uses it).
seed.py new ID PROP 'needs' 'breaks'   turn /repo's current uncommitted change into seeded/ID/patch.diff, undo it
seed.py test ID...                     clean demo = 0, patch builds, stable tests pass, demo != 0, check verdict
"""
import json, os, subprocess, sys
R = "/repo"; S = "/verif/seeded"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    return sh("bash /opt/vp/build.sh")


def demo(i):
    d = "%s/%s/demo.sh" % (S, i)
    r = sh("bash %s" % d, cwd=R, timeout=300)
    return r.returncode, r.stdout[-300:]


def tests():
    sh("bash /opt/vp/test.sh /tmp/seed_o.json")
    o = json.load(open("/tmp/seed_o.json")); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [x for x in b if x not in o["passed"]]


if sys.argv[1] == "new":
    i, prop, needs, br = sys.argv[2:6]
    os.makedirs("%s/%s" % (S, i), exist_ok=True)
    p = sh("git -C %s diff" % R).stdout
    assert p.strip()
    open("%s/%s/patch.diff" % (S, i), "w").write(p)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": br}, open("%s/%s/meta.json" % (S, i), "w"), indent=1)
    sh("git -C %s checkout -- ." % R)
elif sys.argv[1] == "test":
    ids = sys.argv[2:] or sorted(os.listdir(S))
    for i in ids:
        assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo not clean"
        prop = json.load(open("%s/%s/meta.json" % (S, i)))["property"]
        b = build(); assert b.returncode == 0
        c0 = demo(i)
        a = sh("git -C %s apply %s/%s/patch.diff" % (R, S, i))
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY", a.stdout); continue
        try:
            b = build()
            if b.returncode:
                print(i, "BUILD FAILS", b.stdout[-500:]); continue
            t = tests(); build()
            c1 = demo(i)
            k = sh("python3 /verif/checks/run.py %s --quick" % prop)
        finally:
            sh("git -C %s checkout -- ." % R)
        caught = k.returncode == 1 and ("VIOLATION property=%s " % prop) in k.stdout
        ok = c0[0] == 0 and c1[0] != 0 and not t
        print(i, prop, "valid" if ok else "INVALID clean=%s bug=%s tests=%s" % (c0, c1, t), "CAUGHT" if caught else "missed rc=%d" % k.returncode)
        print("   ", "\n    ".join(k.stdout.strip().split("\n")[:4])[:600])
        sys.stdout.flush()
    build()
