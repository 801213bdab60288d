#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--thorough] | check.py --replay FILE"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import driver
from props import PROPS
if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(driver.replay(sys.argv[2]))
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    pid = sys.argv[1]
    c = driver.Check(pid, PROPS[pid], tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        rc = c.go()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
