#!/usr/bin/env python3
"""Writes /verif/known_findings.json (repaired defects and recorded findings)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# (property, subject of the fix commit, what failed before it)
FIXED = json.load(open(os.path.join(V, 'tools', 'fixed.json')))
KNOWN = json.load(open(os.path.join(V, 'tools', 'known.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
subj = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log}
out = []
for prop, s, what in FIXED:
    h = subj[s]
    out.append(dict(property=prop, status='fixed', commit=h, line=f'fixed: property={prop} {h} {what}'))
rest = [s for s in subj if s.startswith('fix:') and s not in {f[1] for f in FIXED}]
assert not rest, rest
for k in KNOWN:
    out.append(dict(k, status='known', line=f"KNOWN-FINDING: property={k['property']} {k['what']}"))
with open(os.path.join(V, 'known_findings.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(out), 'entries')
