#!/usr/bin/env python3
"""Writes DESIGN.md from design_body.md, known_findings.json and seeded/."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(f'{HERE}/known_findings.json', encoding='utf8'))
by = {}
for k in kf['known']:
    by.setdefault(k['id'], []).append(k)
known = '\n'.join(f"* **{i}** ({', '.join(x['property'] for x in v)}): "
                  f"{v[0]['what']}. {v[0]['where']}." for i, v in by.items())
rows = ['| plant | caught by | breaks | needs |', '|---|---|---|---|']
for p in sorted(glob.glob(f'{HERE}/seeded/*/meta.json')):
    m = json.load(open(p, encoding='utf8'))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | "
                f"{m.get('caught', m['property'])} | {m['what_it_breaks']} | "
                f"{m['needs']} |".replace('\n', ' '))
s = open(f'{HERE}/tools/design_body.md', encoding='utf8').read()
s = (s.replace('@KNOWN@', known).replace('@NFIXED@', str(len(kf['fixed'])))
     .replace('@SEEDED@', '\n'.join(rows)).replace('@NSEED@',
                                                   str(len(rows) - 2)))
open(f'{HERE}/DESIGN.md', 'w', encoding='utf8').write(s)
