#!/usr/bin/env python3
"""Static checks of algebraixlib:  check.py <property id> [--tier quick|thorough]

Analyses the Python sources below $VERIF_REPO (default /repo); never imports or runs them.
"""
import argparse
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':          # the same answer in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?', default='all')
    ap.add_argument('--setup', action='store_true', help='only test that the sources can be loaded')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    if a.setup:
        from sa.loader import Program
        print('{} modules loaded'.format(len(Program().modules)))
        return 0
    from sa import props
    from sa.report import finish
    ids = list(props.PROPS) if a.property == 'all' else [a.property]
    rc = 0
    for pid in ids:
        t1 = t0 if len(ids) == 1 else time.time()
        p = props.PROPS[pid]
        try:
            rep = p.run(tier)
        except Exception:                       # no answer: neither held nor violated
            traceback.print_exc()
            print('{}: the analysis does not understand this tree'.format(pid))
            rc = rc or 2
            continue
        r = finish(pid, tier, rep, t1, p.explanation, p.assumptions)
        rc = r if r == 1 or rc == 0 else rc
    return rc


if __name__ == '__main__':
    sys.exit(main())
