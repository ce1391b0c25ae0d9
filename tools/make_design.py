#!/opt/venv/bin/python
"""Writes DESIGN.md"""

import importlib
import json
import os
import re
import sys
from pathlib import Path

root = Path(__file__).resolve().parents[1]
sys.path[:0] = [str(root), os.environ.get('PATRO_REPO', '/repo')]
os.environ['QT_QPA_PLATFORM'] = 'offscreen'

properties = [json.loads(line) for line in (root / 'properties.jsonl').read_text().splitlines()]
notes = {}
for block in re.split(r'^## ', (root / 'tools' / 'design' / 'notes.md').read_text(), flags=re.M)[1:]:
    key, _, text = block.partition('\n')
    notes[key.strip()] = text.strip()
known = [line for line in (root / 'known-findings.txt').read_text().splitlines() if line and not line.startswith('#')]
seeded = {}
for meta in sorted((root / 'seeded').glob('*/meta.json')):
    data = json.loads(meta.read_text())
    seeded.setdefault(data['property'], []).append((meta.parent.name, data))

out = [(root / 'tools' / 'design' / 'intro.md').read_text(), '## Properties\n']
for p in properties:
    pid = p['id']
    out.append('### {} — {}\n'.format(pid, p['title']))
    check = importlib.import_module('checks.' + pid).check
    if pid in notes:
        out.append(notes[pid] + '\n')
    out.append('* **Generated, oracle, non-trivial rule:** ' + ' '.join(check.rule.split()))
    if check.assumptions:
        out.append('* **Bounds and assumptions:** ' + '; '.join(check.assumptions) + '.')
    facets = ['`{}` {}{}'.format(f.name, f.quick * f.shards, ' — ' + ' '.join(f.function.__doc__.split()) if f.function.__doc__ else '') for f in check.facets.values()]
    out.append('* **Facets (cases of the quick tier):** ' + '; '.join(facets) + '.')
    fixed = [line.split(' ', 3)[2:] for line in known if line.startswith('fixed: property={} '.format(pid))]
    if fixed:
        out.append('* **Repaired:** ' + '; '.join('{} ({})'.format(text, commit) for commit, text in fixed) + '.')
    opened = [line.split(' ', 3)[2:] for line in known if line.startswith('open: property={} '.format(pid))]
    for key, text in opened:
        out.append('* **Known finding** `{}`: {}.'.format(key[4:], text))
    out.append('')
out.append((root / 'tools' / 'design' / 'limits.md').read_text())
out.append('## Planted bugs and the checks that catch them\n')
total = sum(map(len, seeded.values()))
out.append('All of the {} changes of `seeded/` are caught by the quick check of their property (checked by `tools/plant.py` when planted, again by `tools/replant.py`).\n'.format(total))
out.append('| id | what it breaks | needs |\n|---|---|---|')
for pid in sorted(seeded):
    for name, data in seeded[pid]:
        out.append('| {} | {} | {} |'.format(name, data['what_it_breaks'].replace('|', '\\|'), data['needs'].replace('|', '\\|')))
(root / 'DESIGN.md').write_text('\n'.join(out) + '\n')
print(len(properties), 'properties,', total, 'bugs')
