#!/usr/bin/env python3
"""fills the tables of DESIGN.md from contracts/index.py and seeded/ (results: seeded-results.json)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.index import PROPS
d = open(os.path.join(V, 'DESIGN.md')).read()
t = ['<!-- properties -->', '## Properties', '']
for k, v in PROPS.items():
    if v['na']:
        t += [f'* **{k} {v["title"]}** — not applicable: {v["na"]}', '']
        continue
    j = '; '.join(f'contracts/{m}.py: {", ".join(ps)}' for m, ps in v['jobs'])
    t += [f'* **{k} {v["title"]}** ({v["level"]}). Contracts: {j}. Native replay: {v["replay"][1] if v["replay"] else "none"}. {v["note"]}'
          + (' Assumes: ' + '; '.join(a for a in v['assumptions'] if a not in __import__('contracts.index').index.COMMON) + '.' if any(a not in __import__('contracts.index').index.COMMON for a in v['assumptions']) else ''), '']
t += ['<!-- /properties -->']
r = {}
p = os.path.join(V, 'tools', 'seeded-results.json')
if os.path.exists(p):
    r = json.load(open(p))
s = ['<!-- seeded -->', '## Planted bugs', '', '| bug | breaks | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    s.append(f'| {i} | {m["what_it_breaks"]} | {m["needs"]} | {r.get(i, "?")} |')
s += ['<!-- /seeded -->']
for name, marker, lines in (('properties', 'PROPERTIES_TABLE', t), ('seeded', 'SEEDED_TABLE', s)):
    body = '\n'.join(lines)
    if marker in d:
        d = d.replace(marker, body)
    else:
        d = re.sub(rf'<!-- {name} -->.*<!-- /{name} -->', lambda _: body, d, flags=re.S)
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
