#!/usr/bin/env python3
"""Writes MANIFEST.json.  CLAIMS: property -> (technique, level, level_note); every other property is not applicable."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FFQ = ('symbolic execution of the gadget (symbolic field type) + finite-field solver over every assignment')
CLAIMS = {}
NA = {}
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'hooks': {'guard': 'cfg(halo_verif)', 'enable': 'RUSTFLAGS="--cfg halo_verif" when building the harness crates in /verif (path dependency on /repo)',
              'source_commits': ['ac7968b'] + HOOKS},
    'checks': [], 'not_applicable': [],
    'notes': 'Every check is checks/run.py <property> <tier>; see DESIGN.md.',
}
for i in ids:
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        m['checks'].append({'property': i, 'quick_cmd': f'python3-vt checks/run.py {i} quick', 'thorough_cmd': f'python3-vt checks/run.py {i} thorough',
                            'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
