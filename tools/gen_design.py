"""DESIGN.md from tools/design_text.py, the check modules, fixed.json, known.json and seeded/"""
import json, pathlib, re, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V/'tools'))
import design_text as T
props = [json.loads(l) for l in open(V/'properties.jsonl')]
code = '''
import sys, json, importlib, pathlib
sys.path.insert(0, "checks")
out = {}
for p in sorted(pathlib.Path("checks").glob("c*_*.py")):
    m = importlib.import_module(p.stem)
    out[m.PROPERTY] = dict(file=p.name, rule=m.RULE, assume=list(m.ASSUMPTIONS), subs=[[s.name, s.quick, s.thorough, (s.fn.__doc__ or "").strip().split(chr(10))[0]] for s in m.SUBS])
print("@@"+json.dumps(out))
'''
o = subprocess.run(['/opt/venv/bin/python', '-B', '-W', 'ignore', '-c', code], cwd=V, capture_output=True, text=True)
assert "@@" in o.stdout, o.stderr[-600:]
C = json.loads(o.stdout.split('@@')[1])
tech = json.load(open(V/'tools/techniques.json'))
fixed = json.load(open(V/'tools/fixed.json'))
known = json.load(open(V/'tools/known.json'))
caught = json.load(open(V/'tools/caught.json'))
ev = {}
for p in props:
    f = V/'evidence'/f"{p['id']}.json"
    ev[p['id']] = json.loads(f.read_text()) if f.exists() else {}
L = [T.HEAD, '## Properties\n']
for p in props:
    i = p['id']; c = C[i]; how, why = T.P[i]
    L.append(f"### {i}: {p['title']}\n")
    L.append(f"`checks/{c['file']}`. Technique: {tech[i]['technique']}. Level: {tech[i]['note']}\n")
    L.append(f"*Specified and judged.* {how}\n")
    L.append(f"*Generated.* {c['rule']}\n")
    L.append(f"*Assumes.* {'; '.join(c['assume'])}.\n")
    L.append('*Bounds (cases quick / thorough).* ' + '; '.join(f'`{n}` {q} / {t}' + (f' ({d})' if d else '') for n, q, t, d in c['subs']) + '.\n')
    L.append(f"*Why tests cannot.* {why}\n")
    n = [f for f in fixed if f[0] == i]
    k = [f for f in known if f['property'] == i]
    s = [d for d in sorted(x.parent.name for x in (V/'seeded').glob('*/meta.json')) if json.load(open(V/'seeded'/d/'meta.json'))['property'] == i]
    L.append(f"*Found.* {len(n)} defects repaired, {len(k)} recorded as known. Planted bugs: {', '.join(s) or 'none'}.\n")
L.append('## Planted bugs\n\nEach is in `seeded/<id>`; "caught by" lists the checks (of this property, and of others where they were run) that report it in the quick tier.\n')
L.append('| bug | property | needs | caught by | history |\n|---|---|---|---|---|')
for x in sorted((V/'seeded').glob('*/meta.json')):
    m = json.loads(x.read_text()); h = caught.get(x.parent.name, {})
    L.append(f"| {x.parent.name} | {m['property']} | {m['needs']} | {h.get('by', m['property'])} | {h.get('note', '')} |")
L.append('\n' + T.TAIL)
L.append('## Genuine defects left as known findings\n')
L += [f"* {k['property']}: {k['what']}" for k in known]
L.append(f'\n## Genuine defects repaired ({len(fixed)} "fix:" commits in /repo)\n')
L += [f"* {a}: {b[5:] if b.startswith('fix: ') else b} ({c})" for a, b, c in fixed]
(V/'DESIGN.md').write_text('\n'.join(L) + '\n')
