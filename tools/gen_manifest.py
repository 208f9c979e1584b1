#!/usr/bin/env python3
"""Writes ../MANIFEST.json from properties.jsonl and the checks that exist."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
TECH = json.loads((root/'tools/techniques.json').read_text())
checks, na = [], []
for line in (root/'properties.jsonl').read_text().splitlines():
    pid = json.loads(line)['id']
    f = list((root/'checks').glob(f'{pid.lower()}_*.py'))
    if f and pid in TECH:
        t = TECH[pid]
        checks.append(dict(property=pid, quick_cmd=f'./check {pid} --tier quick',
            thorough_cmd=f'./check {pid} --tier thorough', evidence_file=f'evidence/{pid}.json',
            technique=t['technique'], level='exploration', level_note=t['note']))
    else:
        na.append(dict(property=pid, reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
    notes='Property-based testing only; hypothesis comes from /opt/veriftools/pyvenv. No hooks in /repo.')
(root/'MANIFEST.json').write_text(json.dumps(m, indent=1)+'\n')
print(len(checks), 'checks,', len(na), 'not claimed')
