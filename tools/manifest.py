#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from the harness's registry (run after adding a check)."""
import json, os, subprocess, tempfile
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as t:
    h = os.path.join(t, 'h')
    subprocess.check_call(['bash', '-c', '. /opt/vp/env.sh; cd %s/harness && go build -o %s ./cmd/h' % (verif, h)])
    reg = {}
    for l in subprocess.check_output([h, 'list'], text=True).splitlines():
        d = json.loads(l)
        reg[d['id']] = d
props = [json.loads(l) for l in open(os.path.join(verif, 'properties.jsonl'))]
LEVEL = {'C27': 'fault_enumeration'}
NOTE = ("Every execution within the stated bounds is enumerated and run on the real code, rebuilt from /repo's "
        "working tree, and compared with an independent reference model; nothing is claimed beyond the bounds "
        "(listed per scope in the evidence file). ")
checks, na = [], []
for p in props:
    r = reg.get(p['id'])
    if not r:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    note = NOTE + (r['note'] or '')
    if r['assumptions']:
        note += ' Assumes: ' + '; '.join(r['assumptions']) + '.'
    checks.append({'property': p['id'], 'quick_cmd': 'bash run.sh %s quick' % p['id'],
                   'thorough_cmd': 'bash run.sh %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'model checking: ' + r['technique'],
                   'level': LEVEL.get(p['id'], 'model_checking'), 'level_note': note.strip()})
m = {'version': 1, 'setup_cmd': 'bash run.sh setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks drive the exported API and the command line tool. All documented defects found were repaired (known-findings.txt).'}
json.dump(m, open(os.path.join(verif, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(verif, 'MANIFEST.json'), 'a').write('\n')
