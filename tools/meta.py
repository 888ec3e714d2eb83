#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta/*.txt (one property per file section)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for fn in sorted(glob.glob(V + '/tools/meta/*.txt')):
    for sec in re.split(r'^=== ', open(fn).read(), flags=re.M)[1:]:
        lines = sec.rstrip().split('\n')
        pid, title = lines[0].split(' ', 1)
        d, key = {}, None
        for l in lines[1:]:
            m = re.match(r'^(statement|over|text|tests|files|mech|technique|note|na|state|observe): ?(.*)', l)
            if m:
                key = m.group(1)
                d.setdefault(key, []).append(m.group(2))
            elif l.strip():
                d[key][-1] += ' ' + l.strip()
        assert len(title) <= 80, (pid, len(title))
        anch = {'files': d['files'][0].split(), 'mechanism': [dict(zip(('name', 'where'), (x.strip() for x in m.split(' @ ')))) for m in d.get('mech', [])]}
        if 'state' in d:
            anch['state'] = [dict(zip(('name', 'meaning', 'where'), (x.strip() for x in m.split(' @ ')))) for m in d['state']]
        if 'observe' in d:
            anch['observe_at'] = d['observe'][0].split()
        anch['hook_needed'] = None
        props.append({'id': pid, 'title': title, 'statement': d['statement'][0], 'quantifier': {'over': d['over'][0].split(), 'text': d['text'][0]},
                      'why_tests_cant': d['tests'][0], 'anchors': anch})
        if 'na' in d:
            na.append({'property': pid, 'reason': d['na'][0]})
        else:
            checks.append({'property': pid, 'quick_cmd': f'python3-vt check.py {pid} --tier quick', 'thorough_cmd': f'python3-vt check.py {pid} --tier thorough',
                           'technique': d['technique'][0], 'level': 'other', 'level_note': d['note'][0]})
ids = [p['id'] for p in props]
assert len(ids) == len(set(ids))
with open(V + '/properties.jsonl', 'w') as f:
    for p in sorted(props, key=lambda p: p['id']):
        f.write(json.dumps(p) + '\n')
json.dump({'version': 1, 'setup_cmd': 'clang++ --version && python3-vt -c "import numpy"', 'checks': sorted(checks, key=lambda c: c['property']), 'not_applicable': na,
           'notes': 'All checks read the current /repo sources through clang\'s typed syntax tree on every run and decide obligations on value graphs; nothing of PX4/ecl is executed.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props:
        jsonschema.validate(p, S)
    jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(len(checks), 'checks,', len(na), 'not applicable')
