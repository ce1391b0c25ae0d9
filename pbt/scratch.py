"""Scratch directory of the current process, removed when the check ends"""

import atexit
import os
import shutil
import tempfile

_BASE = tempfile.mkdtemp(prefix='patro-check-')
_OWNER = os.getpid()


def _clean():
    if os.getpid() == _OWNER:
        shutil.rmtree(_BASE, ignore_errors=True)


atexit.register(_clean)


def scratch():
    """Each worker has its own one, shards of a facet run at the same time"""
    path = os.path.join(_BASE, str(os.getpid()))
    os.makedirs(path, exist_ok=True)
    return path
