#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if "--selftest" in a:
        from jv import selftest
        sys.exit(selftest.run())
    from jv import runner
    rc = 0
    for pid in a:
        rc = max(rc, runner.run(pid, tier))
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":     # worker processes import this file
    main()
