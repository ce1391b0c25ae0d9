#!/usr/bin/env python3
"""Runs again the checks on the planted bugs: ``replant.py [PREFIX ...]``

Environment: VERIF_SEED, PLANT_REF (revision of /repo). For each bug of seeded/: demonstration on the unchanged tree and with the patch, and check with the patch.
"""

import json
import os
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
WT = '/tmp/replant-wt-{}'.format(os.getpid())
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', QT_QPA_PLATFORM='offscreen', PATRO_REPO=WT)


def run(cmd):
    return subprocess.run(cmd, shell=True, cwd=WT, env=ENV, capture_output=True, text=True, timeout=1500)


subprocess.run('git -C /repo worktree add -q --detach {} {}'.format(WT, os.environ.get('PLANT_REF', 'HEAD')), shell=True, check=True)
missed = []
try:
    for directory in sorted((VERIF / 'seeded').iterdir()):
        if len(sys.argv) > 1 and not directory.name.startswith(tuple(sys.argv[1:])):
            continue
        pid = json.loads((directory / 'meta.json').read_text())['property']
        clean = run('bash {}/demo.sh'.format(directory)).returncode
        applied = run('git apply {}/patch.diff'.format(directory)).returncode
        broken = run('bash {}/demo.sh'.format(directory)).returncode
        r = run('/opt/venv/bin/python {}/run.py {}'.format(VERIF, pid))
        subprocess.run('git -C {} checkout -q -- .'.format(WT), shell=True, check=True)
        facets = sorted({l.rsplit('-', 1)[-1][:-5] for l in r.stdout.splitlines() if l.startswith('VIOLATION')})
        ok = (clean, applied, r.returncode) == (0, 0, 1) and broken
        if not ok:
            missed.append(directory.name)
        print('{} {:24} demo {}/{} apply {} check {} {}'.format('ok    ' if ok else 'MISSED', directory.name, clean, broken, applied, r.returncode, ','.join(facets)), flush=True)
finally:
    subprocess.run('git -C /repo worktree remove --force {}'.format(WT), shell=True)
print('missed:', missed)
