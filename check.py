#!/usr/bin/env python3
"""Entry point: check.py PROPERTY [--tier quick|thorough] [--task NAME]... [-v] [--replay FILE]"""
import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--task', action='append')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--total', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--concrete-server', action='store_true')
    a = ap.parse_args()
    from symx import run
    if a.concrete_server:
        return run.concrete_server()
    if a.replay:
        c = json.load(open(a.replay))
        run.concrete_setup()
        out = run.run_concrete(c['property'], c['fn'], c['params'], c['inputs'], c.get('tier', 'quick'))
        print(json.dumps({'inputs': c['inputs'], 'params': c['params'], 'result': out}, indent=1, default=str))
        if out['status'] == 'fail':
            print(f"VIOLATION property={c['property']} replay={a.replay}")
            return 1
        return 0
    seed = int(os.environ.get('VERIF_SEED') or 1)
    return run.main_check(a.property, a.tier, seed, jobs=a.j, only=a.task, total=a.total, verbose=a.v)


if __name__ == '__main__':
    sys.exit(main())
