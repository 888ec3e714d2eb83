#!/usr/bin/env python3
"""Development aid: mkseed.py ID PROPERTY FILE <<< spec; spec = JSON with edits [[file, old, new], ...], needs, breaks, demo (shell) and files."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(id, prop, edits, needs, breaks, demo_cpp=None, demo_sh=None, flags='', shim=False, srcs=''):
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip(), '/repo dirty'
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if demo_cpp:
        open(d + '/demo.cpp', 'w').write(demo_cpp)
        inc = ''
        if shim:
            os.makedirs(d + '/shim/matrix', exist_ok=True)
            open(d + '/shim/matrix/math.hpp', 'w').write(open(V + '/shim/matrix/math.hpp').read())
            inc = '-I"$H/shim" '
        demo_sh = f'''#!/bin/bash
set -eu
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'find "$W" -delete' EXIT
g++ -std=c++14 -O1 -w -DECL_STANDALONE {inc}-I. -IEKF {flags} "$H/demo.cpp" {srcs} -o "$W/demo"
"$W/demo"
'''
    open(d + '/demo.sh', 'w').write(demo_sh)
    os.chmod(d + '/demo.sh', 0o755)
