#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]
Decides one property from the current source in /repo. Exit 0: holds; 1: VIOLATION line; 2: no answer."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hx.extract import AnalysisError
from hx.report import Report
from hx.ir import Program


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("rules." + prop)
    R = Report(prop, tier)
    try:
        P = Program(max_row=getattr(mod, "MAX_ROW", {}).get(tier, 2))
        mod.run(P, R)
        return R.finish()
    except AnalysisError as e:
        print("ERROR property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s: internal error" % prop)
        return 2


if __name__ == "__main__":
    sys.exit(main())
