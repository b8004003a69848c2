#!/usr/bin/env python3
"""Writes MANIFEST.json from the monitors registered in sa/props.py and sa/na.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import props
na = json.load(open(os.path.join(V, 'sa', 'na.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks = []
for i in ids:
    c = props.ALL.get(i)
    if not c:
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                   'technique': getattr(c, 'technique', 'abstract interpretation of LLVM IR with a typestate monitor'),
                   'level': 'other',
                   'level_note': 'Over-approximating path-sensitive static analysis of the whole program compiled from the current source: ' + c.rule +
                   '. Trusts the models of libc and libstdc++ in sa/models.py and sa/libc.py, the clang front end, and the bounds stated in DESIGN.md; Windows code is not analysed.'})
out = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks,
       'not_applicable': [{'property': i, 'reason': na.get(i, 'no check built yet')} for i in ids if i not in props.ALL]}
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(out['not_applicable']), 'not applicable')

# DESIGN.md: tools/DESIGN.in.md with the tables filled in
rules = '\n'.join('* **%s** (%s). %s.' % (i, t, c.rule[0].upper() + c.rule[1:]) for i, t, c in
                  [(d['id'], d['title'], props.ALL[d['id']]) for d in map(json.loads, open(os.path.join(V, 'properties.jsonl'))) if d['id'] in props.ALL])
seeds = ['| change | property (caught by its check) | needs |', '|---|---|---|']
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    seeds.append('| %s | %s | %s |' % (s, m['property'], m['needs']))
t = open(os.path.join(V, 'tools', 'DESIGN.in.md')).read().replace('@@RULES@@', rules).replace('@@SEEDS@@', '\n'.join(seeds))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
