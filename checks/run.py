#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    elif "--quick" in sys.argv:
        os.environ["VERIF_TIER"] = "quick"
    import build
    rc = 0
    for pid in args:
        try:
            mod = importlib.import_module(pid.lower())
            r = mod.check(os.environ.get("VERIF_TIER", "quick"))
        except build.AnalysisError as e:
            print("ANALYSIS-ERROR property=%s %s" % (pid, e))
            r = 2
        rc = max(rc, r)
    sys.exit(rc)


if __name__ == "__main__":
    main()
