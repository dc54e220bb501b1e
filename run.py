#!/opt/venv/bin/python
"""run.py check C01 [--tier quick|thorough]   |   run.py replay FILE"""
import sys, os
os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.dont_write_bytecode:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    if not os.environ.get('SX_REEXEC'):
        os.environ['SX_REEXEC'] = '1'
        os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(v, '1')
import argparse


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay'])
    ap.add_argument('what')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--only', action='append')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from sx import driver
    if a.cmd == 'replay':
        return driver.run_replay(a.what)
    return driver.run_check(a.what.upper(), a.tier if a.tier in driver.TIERS else 'quick', a.budget, a.only, a.v)


if __name__ == '__main__':
    sys.exit(main())
