#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] | check.py --replay FILE | check.py --list"""
import argparse, importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'components')]
sys.dont_write_bytecode = True
import vf, json
from registry import PROPS


def units_of(prop):
    return [u for m in PROPS[prop] for u in importlib.import_module(m).UNITS]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--unit')
    a = ap.parse_args()
    if a.list:
        print('\n'.join(PROPS))
        return 0
    if a.replay:
        v = json.load(open(a.replay))
        vf.replay_file(a.replay, units_of(v['property']))
        return 0
    us = [u for u in units_of(a.prop) if a.tier == 'thorough' or not getattr(u, 'deep', False)]
    if a.unit:
        us = [u for u in us if u.name == a.unit]
    return vf.run_property(a.prop, us, a.tier, a.seed)


if __name__ == '__main__':
    sys.exit(main())
