#!/usr/bin/env python3-vt
"""Run one property's check:  python3-vt run.py C01 [--tier quick|thorough]
Replay a violation:          python3-vt run.py replay FILE"""
import argparse
import hashlib
import json
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        from se.explore import replay

        return replay(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--only", action="append")
    ap.add_argument("-v", "--verbose", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    a = ap.parse_args()
    from se import report

    return report.check(a.prop.upper(), a.tier, int(os.environ.get("VERIF_SEED", "1")), a.budget, a.jobs,
                        a.only, a.verbose, a.all)


if __name__ == "__main__":
    sys.exit(main())
