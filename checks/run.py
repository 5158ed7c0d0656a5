#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough : runs one check. Exit 0 held, 1 violation, 2 error of the check."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
import vp
def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    mod = importlib.import_module('c_' + prop.lower())
    c = vp.Check(prop, tier)
    try:
        return mod.run(c)
    except vp.CheckError as e:
        print('ERROR', prop, e); return 2
    except Exception:
        traceback.print_exc(); return 2
sys.exit(main())
