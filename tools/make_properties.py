#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one entry per property)"""

import json
from pathlib import Path

PROPERTIES = []


def P(id, title, statement, over, text, why, files, mechanism, observe=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if observe:
        anchors['observe_at'] = observe
    PROPERTIES.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()), anchors=anchors))


GE = 'Patro/GeometryEngine/'

exec((Path(__file__).parent / 'properties_table.py').read_text())

out = Path(__file__).resolve().parents[1] / 'properties.jsonl'
with open(out, 'w') as fh:
    for p in PROPERTIES:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        fh.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(PROPERTIES), 'properties')
