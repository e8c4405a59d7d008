#!/usr/bin/env python3
"""Writes DESIGN.md from the hand-written parts here, properties.jsonl, MANIFEST.json, the
check's own bounds (mc design) and seeded/*/meta.json plus tools/caught.json."""
import json, subprocess, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
props = [json.loads(l) for l in open('properties.jsonl')]
info = {d['id']: d for d in map(json.loads, subprocess.check_output([V + '/target/mc/release/mc', 'design'], text=True).splitlines())}
caught = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
part = open('tools/design_parts.md').read().split('<<<PROPERTIES>>>')
why = json.load(open('tools/design_why.json'))
out = [part[0]]
for p in props:
    i = p['id']; d = info[i]
    out.append(f"### {i} {p['title']}\n\n")
    out.append(f"- Enumerated (quick): {d['quick']}.\n")
    if d['thorough'] != d['quick']:
        out.append(f"- Enumerated (thorough): {d['thorough']}.\n")
    out.append(f"- Oracle: {why[i]['oracle']}\n- Beyond the tests: {why[i]['why']}\n- Cost: {why[i]['cost']}\n")
    if d['assumptions']:
        out.append('- Assumed: ' + '; '.join(d['assumptions']) + '.\n')
    out.append('\n')
out.append(part[1])
out.append('\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n')
for f in sorted(glob.glob('seeded/*/meta.json')):
    i = f.split('/')[1]; m = json.load(open(f))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {', '.join(caught.get(i, ['?']))} |\n")
if len(part) > 2:
    out.append(part[2])
open('DESIGN.md', 'w').write(''.join(out))
