"""Make the z3 Python bindings of the tooling venv importable from PyPy.

Only the ``z3`` package is exposed (nothing else of that venv's
site-packages), by loading it from its own directory.
"""
import glob
import importlib.util
import sys


def load():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    dirs = (glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages/z3')
            or [])
    if not dirs:
        raise RuntimeError('z3 python bindings not found')
    d = dirs[0]
    spec = importlib.util.spec_from_file_location(
        'z3', d + '/__init__.py', submodule_search_locations=[d])
    mod = importlib.util.module_from_spec(spec)
    sys.modules['z3'] = mod
    spec.loader.exec_module(mod)
    return mod
