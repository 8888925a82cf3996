#!/usr/bin/env python3
"""check.py ID [quick|thorough] | check.py --replay FILE"""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from props import P


def main():
    if sys.argv[1] == "--replay":
        if sys.argv[2].endswith(".json"):
            return subprocess.call(["python3-vt", vlib.V + "/pysym.py", "--replay", sys.argv[2]])
        return vlib.replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    p = P[pid]
    try:
        if isinstance(p["jobs"][0], vlib.PyJob):
            return vlib.run_python_check(pid, tier, p["jobs"], p["title"], p["assumptions"], p["outside"])
        return vlib.run_check(pid, tier, p["jobs"], p["title"], p["assumptions"], p["outside"])
    except vlib.CheckError as e:
        print(f"ERROR property={pid}: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
