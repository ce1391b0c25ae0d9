#!/opt/venv/bin/python
"""Entry point of the checks: ``run.py <ID> [--tier quick|thorough] [--replay FILE]``"""

import os
import sys

sys.dont_write_bytecode = True

_ENVIRONMENT = dict(
    PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', QT_QPA_PLATFORM='offscreen',
    OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONWARNINGS='ignore',
    MPLCONFIGDIR='/tmp/verif-mpl', XDG_CACHE_HOME='/tmp/verif-mpl', TZ='UTC', LC_ALL='C.UTF-8',
)

if os.environ.get('VERIF_REEXEC') != '1':
    environment = dict(os.environ)
    environment.update(_ENVIRONMENT)
    environment['VERIF_REEXEC'] = '1'
    os.execve(sys.executable, [sys.executable] + sys.argv, environment)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    from pbt.harness import main
    sys.exit(main())
