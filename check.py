#!/usr/bin/env python3
"""check.py <property> [--thorough]   decide one property on /repo's current source.

exit 0: held on everything analysed; exit 1: VIOLATION lines; exit 2: the analysis itself broke.
"""
import fnmatch, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from analyzer.catalog import PROPS
from analyzer import driver

if __name__ == "__main__":
    pid = next((a for a in sys.argv[1:] if not a.startswith("-")), None)
    if pid not in PROPS:
        print("unknown property", pid)
        sys.exit(2)
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    sys.exit(driver.main(pid, tier))
