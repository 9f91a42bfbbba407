#!/usr/bin/env python3
"""usage: check.py <property id> [--tier quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.dont_write_bytecode = True
def run(pid, tier):
    import core, checks
    fn, expl, assume = checks.load(pid)
    return core.main(pid, tier, fn, expl, assume)
if __name__ == "__main__":
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if a == ["--setup"]:
        import core
        print("facts:", core.facts()); sys.exit(0)
    rc = 0
    for pid in a: rc |= run(pid, tier)
    sys.exit(rc)
