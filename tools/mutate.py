#!/usr/bin/env python3
"""Development aid: sensitivity of a check.  mutate.py CHECKS FILE [-n N] [-f FUNCTION_REGEX] [-s SEED] applies small source mutations to FILE in scratch
copies of /repo and shows those no check of the comma-separated list reports."""
import argparse, os, random, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument('checks'); ap.add_argument('file'); ap.add_argument('-n', type=int, default=40); ap.add_argument('-s', type=int, default=1); ap.add_argument('-l', help='line range a-b'); ap.add_argument('-v', action='store_true'); ap.add_argument('-j', type=int, default=7)
a = ap.parse_args()
random.seed(a.s)
src = open('/repo/' + a.file).read().split('\n')
lo, hi = (int(x) for x in a.l.split('-')) if a.l else (1, len(src))
cands = []
incomment = False
for i, l in enumerate(src):
    if not lo <= i + 1 <= hi:
        continue
    t = l.strip()
    if '/*' in t:
        incomment = True
    if incomment:
        if '*/' in t:
            incomment = False
        continue
    if not t or t.startswith(('//', '#', '*', 'using', 'namespace', 'static const', 'class ', 'struct ')) or t in ('{', '}', '};'):
        continue
    code = l.split('//')[0]
    def rep(pat, sub, tag):
        for m in re.finditer(pat, code):
            n = code[:m.start()] + m.expand(sub) + code[m.end():]
            if n != code:
                cands.append((i, n, tag))
    rep(r'(?<=[\w\)\]] )\+(?= )', '-', '+-'); rep(r'(?<=[\w\)\]] )-(?= )', '+', '-+')
    rep(r'(?<=[\w\)\]]) \* (?=[\w\(])', ' / ', '*/'); rep(r'\+=', '-=', '+=')
    rep(r' < ', ' > ', '<>'); rep(r' > ', ' < ', '><'); rep(r' <= ', ' > ', '<='); rep(r' >= ', ' < ', '>='); rep(r' == ', ' != ', '=='); rep(r' != ', ' == ', '!=')
    rep(r' < ', ' <= ', '<<='); rep(r'&&', '||', '&&'); rep(r'\|\|', '&&', '||')
    rep(r'\btrue\b', 'false', 'true'); rep(r'\bfalse\b', 'true', 'false')
    rep(r'\b(\d+)\.(\d+)f\b', r'\1.3\2f', 'const'); rep(r'(?<=[(\[, ])([0-9])(?=[)\], ])', r'1\1' if False else '1', 'idx'); rep(r'(?<=[(\[, ])([0-9])(?=[)\], ])', '2', 'idx')
    rep(r'\bsin\b', 'cos', 'sin'); rep(r'\bcos\b', 'sin', 'cos'); rep(r'!(?=[\w_])', '', '!'); rep(r'if \((?=[^!])', 'if (!', 'if!') if False else None
    rep(r'\bmax\b', 'min', 'max'); rep(r'\bmin\b', 'max', 'min')
    if t.endswith(';') and not t.startswith(('return', 'break', 'const', 'float ', 'double ', 'bool ', 'int ', 'uint', 'matrix::', 'Vector', 'Matrix', 'case', 'auto')) and t.count('(') == t.count(')'):
        cands.append((i, re.match(r'\s*', l).group(0) + ';', 'drop'))
random.shuffle(cands)
seen, pick = set(), []
for c in cands:
    if (c[0], c[1]) not in seen:
        seen.add((c[0], c[1])); pick.append(c)
pick = pick[:a.n]


def one(c):
    i, n, tag = c
    d = tempfile.mkdtemp(prefix='mut.')
    try:
        subprocess.run(f'cd /repo && tar cf - --exclude=replay_data $(git ls-files | grep -v "^test/" | grep -v " ") | tar xf - -C {d}', shell=True, check=True)
        s = list(src); s[i] = n
        open(f'{d}/{a.file}', 'w').write('\n'.join(s))
        os.makedirs(d + '/.v')
        res = []
        for k in a.checks.split(','):
            env = dict(os.environ, VFA_REPO=d, VFA_EVID=d + '/.v'); env.pop('VFA_CACHE', None)
            try:
                r = subprocess.run(['python3-vt', '/verif/check.py', k], env=env, capture_output=True, text=True, timeout=600)
                res.append(r.returncode)
                if r.returncode == 1: break
                if r.returncode not in (0, 1): err = r.stderr
            except subprocess.TimeoutExpired:
                res.append('T')
        st = 'caught' if 1 in res else 'MISSED' if all(x == 0 for x in res) else f'rc{res}'
        return st, i, n, tag, (err.strip().split('\n')[-1][:200] if st.startswith('rc') and 'err' in dir() else '')
    finally:
        shutil.rmtree(d)


cnt = {}
with ThreadPoolExecutor(a.j) as ex:
    for st, i, n, tag, err in ex.map(one, pick):
        cnt[st] = cnt.get(st, 0) + 1
        if st != 'caught' or a.v:
            print(f'{st} {a.file}:{i+1} [{tag}]\n   - {src[i].strip()}\n   + {n.strip()}' + (f'\n   {err}' if err else ''), flush=True)
print(cnt)
