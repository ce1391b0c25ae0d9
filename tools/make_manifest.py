#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per module of checks/, the others are not applicable"""

import json
from pathlib import Path

root = Path(__file__).resolve().parents[1]
properties = [json.loads(line) for line in (root / 'properties.jsonl').read_text().splitlines()]
technique = 'property-based testing (Hypothesis): generated inputs/histories against an explicit oracle, shrunk to a replay file'
notes = {}
exec((root / 'tools' / 'level_notes.py').read_text(), notes)
not_applicable = notes['NOT_APPLICABLE']
checks, missing = [], []
for p in properties:
    pid = p['id']
    if (root / 'checks' / (pid + '.py')).exists():
        command = '/opt/venv/bin/python run.py {}'.format(pid)
        checks.append(dict(
            property=pid, quick_cmd=command + ' --tier quick', thorough_cmd=command + ' --tier thorough',
            technique=notes['TECHNIQUE'].get(pid, technique), level='exploration',
            level_note=notes['LEVEL_NOTES'].get(pid, notes['DEFAULT_NOTE'])))
    else:
        missing.append(dict(property=pid, reason=not_applicable.get(pid, 'check not built yet')))
manifest = dict(
    version=1,
    setup_cmd='/opt/venv/bin/python -c "import hypothesis, numpy"',
    checks=checks,
    not_applicable=missing,
    notes='Every check: exit 0 held, exit 1 VIOLATION, exit 2 harness error. Seed from VERIF_SEED. No hook is needed in /repo.',
)
(root / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
print(len(checks), 'checks,', len(missing), 'missing')
