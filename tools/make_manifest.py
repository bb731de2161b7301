#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harness/config.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'harness'))
sys.dont_write_bytecode = True
import config
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in config.PROPS:
        c = config.PROPS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 harness/check.py %s quick' % i,
            'thorough_cmd': 'python3 harness/check.py %s thorough' % i,
            'technique': 'TLA+ specification: TLC model checking, spec-generated programs run on t3f, trace validation by TLC',
            'level': 'model_checking',
            'level_note': c.get('note', 'Exhaustive on the small-step model within its constants; on the code, every call of the generated programs is judged, sampled over shapes, ranks, batch sizes and dtypes.'),
            'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': config.NOT_APPLICABLE.get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'bash harness/setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks import t3f from /repo as it is', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Specification in spec/ (TLA+), harness in harness/. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
