#!/usr/bin/env python3
"""DESIGN.md = tools/design.head.md + one paragraph per property (from the metadata) + tools/design.tail.md"""
import glob, json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
tech = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
ev = sys.argv[1] if len(sys.argv) > 1 else V + '/evidence'
seeds = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
src = {}
for f in glob.glob(V + '/props/p_*.py'):
    for m in re.finditer(r"@prop\('(\w+)'", open(f).read()):
        src[m.group(1)] = os.path.basename(f)
log = {}
try:
    for l in open('/tmp/all.log'):
        m = re.match(r'(\w+): (\d+) obligations, \d+ hold, (\d+) functions analysed, ([\d.]+) s', l)
        if m: log[m.group(1)] = m.groups()[1:]
except OSError:
    pass
out = open(V + '/tools/design.head.md').read()
for p in props:
    i = p['id']
    if i in na:
        continue
    c = tech[i]
    n = log.get(i)
    sd = ', '.join(s for s, _ in seeds.get(i, ())) or '-'
    out += f"**{i} {p['title']}** (`props/{src[i]}`" + (f"; {n[0]} obl., {n[1]} functions, {n[2]} s" if n else '') + f"; seeds {sd})  \n"
    out += f"Decided by: {c['technique']}. Over {p['quantifier']['text']}. Anchors: " + ', '.join(m['where'] for m in p['anchors']['mechanism']) + ".  \n"
    out += f"Beyond tests: {p['why_tests_cant']} Bounds/abstractions: {c['level_note']}\n\n"
tail = open(V + '/tools/design.tail.md').read()
fx = ''
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m:
        fx += '| %s | `%s` %s |\n' % m.groups()
st = '| id | property | needs | breaks |\n|---|---|---|---|\n'
k = 0
for i in sorted(seeds):
    for s, m in seeds[i]:
        k += 1
for s, m in sorted((s, m) for v in seeds.values() for s, m in v):
    st += f"| {s} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n"
tail = tail.replace('@FIXED@\n', fx).replace('@NSEEDS@', str(k)).replace('@SEEDS@', st)
nas = ''.join(f"* **{i}**: {r}\n" for i, r in na.items())
open(V + '/DESIGN.md', 'w').write(out + tail + nas)
print(len(out + tail))
