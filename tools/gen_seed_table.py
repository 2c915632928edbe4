#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (run by hand)."""
import json, os, re
os.chdir('/verif')
rows = []
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    files = sorted(set(re.findall(r'^\+\+\+ b/src/parser/(\w+)\.rs', open(f'seeded/{d}/patch.diff').read(), re.M)))
    rows.append(f"| {d} | {', '.join(files)} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
tab = '<!--seeds-->\n| change | file | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n<!--/seeds-->'
t = open('DESIGN.md').read()
t = re.sub(r'<!--seeds-->.*<!--/seeds-->', lambda m: tab, t, flags=re.S)
open('DESIGN.md', 'w').write(t)
print(len(rows))
