#!/usr/bin/env python3
"""Plants bugs: ``plant.py SPEC.py [ID ...] [--no-check]``

A spec file defines ``BUGS = [dict(id=, property=, edits=[(file, old, new), ...], needs=, what=, demo=python_source)]``.
In a scratch worktree of /repo's HEAD (under /tmp, removed afterwards): runs the demo (must pass), applies the edits, checks that the tree builds,
the stable tests pass and the demo fails, writes /verif/seeded/<id>/, and runs the check of the property against the worktree.
"""

import json
import os
import subprocess
import sys
import textwrap
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
PYTHON = '/opt/venv/bin/python'
BASELINE = json.load(open('/opt/vp/BASELINE.json'))['stable']

args = [a for a in sys.argv[1:] if not a.startswith('--')]
options = [a for a in sys.argv[1:] if a.startswith('--')]
spec = {}
exec(Path(args[0]).read_text(), spec)
wanted = args[1:]
WT = '/tmp/plant-wt-{}'.format(os.getpid())

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', QT_QPA_PLATFORM='offscreen', PATRO_REPO=WT, VERIF_JOBS='8')


def run(cmd, **kwargs):
    return subprocess.run(cmd, shell=True, cwd=WT, env=ENV, capture_output=True, text=True, timeout=1500, **kwargs)


subprocess.run('git -C /repo worktree add -q --detach {} {}'.format(WT, os.environ.get('PLANT_REF', 'HEAD')), shell=True, check=True)
summary = []
try:
    for bug in spec['BUGS']:
        if wanted and bug['id'] not in wanted:
            continue
        subprocess.run('git -C {} checkout -q -- .'.format(WT), shell=True, check=True)
        directory = VERIF / 'seeded' / bug['id']
        directory.mkdir(parents=True, exist_ok=True)
        (directory / 'demo.py').write_text('import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport warnings\nwarnings.simplefilter("ignore")\n'
                                           + textwrap.dedent(bug['demo']).lstrip('\n'))
        (directory / 'demo.sh').write_text('#!/bin/bash\n# Run with cwd = root of the repository: exit 0 if the property holds on this example\n'
                                           'export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        problems = []
        demo = 'bash {}/demo.sh'.format(directory)
        r = run(demo)
        if r.returncode:
            problems.append('demo fails on the unchanged tree\n' + r.stderr[-1500:])
        for file, old, new in bug['edits']:
            path = Path(WT) / file
            text = path.read_text()
            if text.count(old) != 1:
                problems.append('edit matches {} times in {}: {!r}'.format(text.count(old), file, old))
                continue
            path.write_text(text.replace(old, new))
        diff = run('git diff').stdout
        (directory / 'patch.diff').write_text(diff)
        (directory / 'meta.json').write_text(json.dumps({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['what']}, indent=1) + '\n')
        r = run(demo)
        if r.returncode == 0:
            problems.append('demo passes with the patch')
        for file, _, _ in bug['edits']:
            r = run('{} -m py_compile {}'.format(PYTHON, file))
            if r.returncode:
                problems.append('does not compile: ' + r.stderr)
        r = run('{} -m pytest unit-test -q -p no:cacheprovider -o junit_family=xunit2 --junitxml={}/../plant-junit.xml'.format(PYTHON, WT))
        import xml.etree.ElementTree as ET
        passed = set()
        for tc in ET.parse('/tmp/plant-junit.xml').getroot().iter('testcase'):
            if not list(tc):
                passed.add('{}::{}'.format(tc.get('classname'), tc.get('name')))
        missing = [t for t in BASELINE if t not in passed]
        if missing:
            problems.append('tests fail: {}'.format(missing))
        if problems:
            import shutil
            shutil.rmtree(directory)
        caught = '-'
        if '--no-check' not in options:
            r = run('{} {}/run.py {}'.format(PYTHON, VERIF, bug['property']))
            caught = {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR {}'.format(r.returncode))
            if r.returncode == 1:
                caught += ' by ' + ','.join(sorted({l.rsplit('-', 1)[-1][:-5] for l in r.stdout.splitlines() if l.startswith('VIOLATION')}))
            elif r.returncode != 0:
                problems.append(r.stdout[-800:] + r.stderr[-1500:])
        line = '{:12} {:5} {}'.format(bug['id'], bug['property'], caught)
        print(line, '' if not problems else 'PROBLEMS: ' + '\n   '.join(problems), flush=True)
finally:
    subprocess.run('git -C /repo worktree remove --force {}'.format(WT), shell=True)
