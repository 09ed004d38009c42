#!/usr/bin/env python3
'''Entry point of every check:  run.py <PROPERTY> [--tier T] [--seed N]
[--replay FILE] [--cases W:I ...].  Re-executes itself in the interpreter and
environment the repository is built for.  Exit 0: held on what was observed;
exit 1 + VIOLATION line: violated; exit 2: inconclusive.'''
import os
import sys

PY = '/opt/venv/bin/python'
if os.environ.get('CAUSETS_HARNESS') != '1':
    env = dict(os.environ)
    env.update(CAUSETS_HARNESS='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1',
               PYTHONWARNINGS='ignore', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1')
    if os.path.isdir('/opt/venv/mplconfig'):
        env.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
