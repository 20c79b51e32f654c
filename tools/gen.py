#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from contracts/index.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.index import PROPS, MANIFEST_NOTES
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for k, v in PROPS.items():
        f.write(json.dumps({'id': k, 'title': v['title'], 'statement': v['statement'], 'quantifier': {'over': v['over'], 'text': v['text']}, 'why_tests_cant': v['why'],
                            'anchors': {'files': v['files'], 'mechanism': [{'name': a, 'where': b} for a, b in v['mech']]}}) + '\n')
        assert len(v['title']) <= 80, k
        assert v['statement'].count('. ') <= 2, k
checks = [{'property': k, 'quick_cmd': f'python3-vt check.py {k}', 'thorough_cmd': f'python3-vt check.py {k}', 'technique': 'contract-based deductive verification of the rustc MIR (own VC generator, z3)',
           'level': v['level'], 'level_note': v['note'] or 'Proved for all inputs, outcomes and iterations, function by function, relative to the assumed library contracts listed in the evidence file; async schedules through contracts at every await (cancellation included).'}
          for k, v in PROPS.items() if not v['na']]
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())"', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v['na']} for k, v in PROPS.items() if v['na']], 'notes': MANIFEST_NOTES}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
