#!/usr/bin/env python
"""check.py PID [--tier quick|thorough] | check.py --replay FILE

Exit 0: the property held on every simulated run; 1: violation (a VIOLATION line names the replay file); 2: no answer.
"""
import argparse, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0' or sys.flags.dont_write_bytecode == 0:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.path.insert(0, HERE)
from sim import engine

ap = argparse.ArgumentParser()
ap.add_argument('property', nargs='?')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
ap.add_argument('--runs', type=int)
ap.add_argument('--jobs', type=int, default=8)
ap.add_argument('--no-shrink', action='store_true')
ap.add_argument('--replay')
a = ap.parse_args()
if a.replay:
    sys.exit(engine.replay_file(a.replay))
rc = engine.main(a.property, a.tier, a.seed, a)
sys.stdout.flush(); sys.stderr.flush()
sys.exit(rc)
