#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--cases i,j,..] [-v]"""
import os, sys, json, argparse
ROOT = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['OMP_NUM_THREADS'] = '1'
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, 'vlib'))
import engine, registry


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--cases')
    ap.add_argument('--n', type=int)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    check = registry.get(a.id)
    only = None
    if a.replay:
        d = json.load(open(a.replay))
        a.tier, a.seed, only = d['tier'], d['seed'], [d['index']]
    if a.cases:
        only = [int(x) for x in a.cases.split(',')]
    if a.n:
        check.CASES = {'quick': a.n, 'thorough': a.n}
    return engine.run_check(check, a.tier, int(a.seed), only, a.v)


sys.exit(main())
