#!/usr/bin/env python3
"""Development aid: behaviour-preserving edits.  refactor.py [-c CHECKS] NAME... | all
Each tools/refactor/*.py defines R = {name: [(file, old, new), ...]}.  The named edits are applied together to a scratch copy of /repo, compiled
(syntax only) and all checks are run on it; every check has to stay quiet.  -k keeps the copy."""
import argparse, glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('-c'); ap.add_argument('-k', action='store_true'); ap.add_argument('-o', action='store_true', help='one by one'); ap.add_argument('names', nargs='+')
a = ap.parse_args()
ALL = {}
for f in sorted(glob.glob(V + '/tools/refactor/*.py')):
    ns = {}
    exec(open(f).read(), ns)
    for k, v in ns['R'].items():
        ALL[os.path.basename(f)[:-3] + '.' + k] = v
names = []
for n in a.names:
    names += [k for k in ALL if n == 'all' or k == n or k.startswith(n + '.')]


def tree(names):
    d = tempfile.mkdtemp(prefix='ref.', dir='/tmp')
    subprocess.run(f'cd /repo && tar cf - --exclude=replay_data $(git ls-files | grep -v " ") | tar xf - -C {d}', shell=True, check=True)
    for n in names:
        for f, old, new in ALL[n]:
            p = d + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(n, f, 'pattern found', s.count(old), 'times:', repr(old[:80])); shutil.rmtree(d); return None
            open(p, 'w').write(s.replace(old, new))
    ch = sorted({f for n in names for f, _, _ in ALL[n]})
    cc = sorted(glob.glob(d + '/EKF/*.cpp')) + [d + '/geo/geo.cpp', d + '/geo_lookup/geo_mag_declination.cpp', d + '/airdata/WindEstimator.cpp']
    def comp(c):
        return subprocess.run(['g++', '-std=c++14', '-DECL_STANDALONE', '-fsyntax-only', '-w', f'-I{V}/shim', f'-I{d}', f'-I{d}/EKF', c], capture_output=True, text=True)
    with ThreadPoolExecutor(8) as ex:
        for c, r in zip(cc, ex.map(comp, cc)):
            if r.returncode:
                print('COMPILE', c, r.stderr[:1500]); shutil.rmtree(d); return None
            if 'warning' in r.stderr:
                print('\n'.join(l for l in r.stderr.split('\n') if 'warning' in l and 'shim' not in l)[:600])
    return d


def run(d):
    ids = a.c.split(',') if a.c else subprocess.run(['python3-vt', V + '/check.py', 'list'], capture_output=True, text=True).stdout.split()
    os.makedirs(d + '/.v', exist_ok=True)
    env = dict(os.environ, VFA_REPO=d, VFA_EVID=d + '/.v')
    def one(i):
        r = subprocess.run(['python3-vt', V + '/check.py', i], env=env, capture_output=True, text=True)
        return i, r.returncode, r.stdout + r.stderr
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for i, rc, o in ex.map(one, ids):
            if rc:
                bad += 1
                L = [l for l in o.split('\n') if l.strip()]
                print(f'  {i}: rc {rc}  ' + ' | '.join(l.strip()[:230] for l in L[:3] + L[-1:]))
    print(f'{len(ids)} checks, {bad} not quiet')
    return bad


for grp in ([[n] for n in names] if a.o else [names]):
    print('==', ' '.join(grp))
    d = tree(grp)
    if d:
        run(d)
        if a.k: print(d)
        else: shutil.rmtree(d)
