#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Run after adding a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, 'tools', 'checks.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': './check.sh setup',
    'checks': [],
    'not_applicable': [],
    'notes': 'Every check rebuilds a harness crate against /repo (path dependency), enumerates a bounded space completely on the real code and compares each execution with a reference model. See DESIGN.md.',
}
for p in props:
    if p in CHECKS:
        tech, level, note = CHECKS[p]
        m['checks'].append({
            'property': p,
            'quick_cmd': f'./check.sh {p} quick',
            'thorough_cmd': f'./check.sh {p} thorough',
            'evidence_file': f'evidence/{p}.json',
            'technique': tech, 'level': level, 'level_note': note,
        })
    else:
        m['not_applicable'].append({'property': p, 'reason': NOT.get(p, 'no check has been built yet')})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'without')
