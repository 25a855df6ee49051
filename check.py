#!/usr/bin/env python3
"""usage: check.py <property> [quick|thorough]"""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(20000)
import front

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("rules." + prop.lower())
    rep = front.Report(prop, tier)
    try:
        return (getattr(mod, "main", None) or mod.run)(rep)
    except front.AnalysisError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 3

sys.exit(main())
