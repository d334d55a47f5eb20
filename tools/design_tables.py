#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (bounds of every check, planted changes) from the sources."""
import re, json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
metas = {}
for f in sorted(glob.glob(root + '/harness/src/props/*.rs')):
    t = open(f).read()
    for m in re.finditer(r'meta: Meta \{\s*id: "(C\d\d)",\s*rule: "((?:[^"\\]|\\.)*)",\s*bounds: \|t\| b\(t,\s*"((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)"\),', t):
        metas[m[1]] = (os.path.basename(f), m[2], m[3], m[4])
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
out = []
for p in props:
    f, rule, q, th = metas[p['id']]
    out += [f"### {p['id']} — {p['title']}", f"*Enumerated* (`props/{f}`): {rule}.", f"*Quick*: {q}.", f"*Thorough*: {th}.", ""]
seeds = ["| change | property | what it breaks | what it needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d)); cell = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
    seeds.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} |")
t = open(root + '/DESIGN.md').read()
def put(t, tag, lines):
    return re.sub(rf'(<!-- {tag} -->\n).*?(<!-- end {tag} -->)', lambda m: m[1] + '\n'.join(lines) + '\n' + m[2], t, flags=re.S)
t = put(put(t, 'bounds', out), 'seeds', seeds)
open(root + '/DESIGN.md', 'w').write(t)
