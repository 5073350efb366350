#!/usr/bin/env python3-vt
"""check.py --prop C01 [--tier quick|thorough]: decide one property on /repo's current tree."""
import sys, os, json, time, argparse, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-harness', action='store_true')
    a = ap.parse_args()
    from vcg import driver
    sys.exit(driver.run(a.prop, a.tier, a))
if __name__ == '__main__': main()
