#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | all"""
import argparse
import importlib
import glob
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    from vfa import harness
    for m in sorted(glob.glob(os.path.join(harness.VERIF, 'props', 'p_*.py'))):
        importlib.import_module('props.' + os.path.basename(m)[:-3])
    if a.prop == 'list':
        print(' '.join(sorted(harness.PROPS)))
        return 0
    ids = sorted(harness.PROPS) if a.prop == 'all' else [a.prop]
    for i in ids:
        harness.PROPS[i]
    if len(ids) > 1:
        import multiprocessing as mp
        with mp.Pool(8, maxtasksperchild=1) as p:
            return max(p.starmap(harness.run_check, [(i, a.tier) for i in ids], chunksize=1))
    return harness.run_check(ids[0], a.tier)


RC = [3]


def body():
    RC[0] = main()


t = threading.Thread(target=body)
t.start()
t.join()
sys.stdout.flush()
os._exit(RC[0])
