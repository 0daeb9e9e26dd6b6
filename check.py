#!/usr/bin/env python3
"""Runs the monitors of one property:  check.py Cnn [--tier quick|thorough] [--replay FILE]

Re-executes itself with the interpreter of the repository and a fixed
environment, then hands over to mon.core.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONUTF8': '1',
       'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
       'MKL_NUM_THREADS': '1', 'VERIF_REEXEC': '1'}


def interpreter():
    for p in (os.environ.get('VERIF_PYTHON'), '/opt/venv/bin/python'):
        if p and os.path.exists(p):
            return p
    return sys.executable


if __name__ == '__main__':
    if os.environ.get('VERIF_REEXEC') != '1':
        env = dict(os.environ)
        env.update(ENV)
        env.pop('PYTHONPATH', None)
        py = interpreter()
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from mon import core
    sys.exit(core.main(sys.argv[1:]))
