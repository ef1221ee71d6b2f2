#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPLORE = 'TLA+ specification explored exhaustively with TLC; every explored behaviour is replayed into the real code'
BOTH = 'TLA+ specification explored exhaustively with TLC and replayed into the real code; recorded executions validated against it'
TRACE = 'TLA+ specification checked with TLC; traces recorded from the real code are validated against it'
NOTES = {}
exec(open(os.path.join(V, 'tools', 'manifest_notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'tools', 'vt', 'checks', i.lower() + '.py')):
        t, note = NOTES[i]
        checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i, 'technique': t, 'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check rebuilds protogen and its headers from /repo into /verif/build and removes them. No hooks are needed in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
