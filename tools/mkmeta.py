#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BC, GC, BASE = ('badidatetime/' + n for n in (
    'badi_calendar.py', 'gregorian_calendar.py', 'base_calendar.py'))
INIT = 'badidatetime/__init__.py'
DT, TDU, STRP, STR, AST = ('badidatetime/' + n for n in (
    'datetime.py', '_timedateutils.py', '_strptime.py', '_structures.py',
    '_astronomical_terms.py'))
PROPS = []


def P(pid, title, statement, over, text, why, mech, tech, note, state=()):
    files = []
    ms = []
    for name, where in mech:
        f, _, fn = where.partition(':')
        if f not in files:
            files.append(f)
        ms.append({'name': name, 'where': where})
    PROPS.append((dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=ms)), tech, note))


exec(open(os.path.join(HERE, 'tools', 'props_table.py'),
          encoding='utf8').read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf8') as f:
    for p, _, _ in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

checks, na = [], []
for p, tech, note in PROPS:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'harness/props',
                                   pid.lower() + '.py')):
        checks.append(dict(
            property=pid, quick_cmd=f'./check {pid} --tier quick',
            thorough_cmd=f'./check {pid} --tier thorough',
            evidence_file=f'evidence/{pid}.json', technique=tech,
            level='exploration', level_note=note))
    else:
        na.append(dict(property=pid, reason='The check is not built yet.'))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf8') as f:
    json.dump(dict(version=1, setup_cmd='./check selftest', checks=checks,
                   not_applicable=na), f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
