"""Make the preinstalled z3 importable from the interpreter that has niapy."""
import glob
import importlib.util
import sys

try:
    import z3
except ImportError:
    p = sorted(glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/__init__.py'))[0]
    spec = importlib.util.spec_from_file_location('z3', p, submodule_search_locations=[p.rsplit('/', 1)[0]])
    z3 = importlib.util.module_from_spec(spec)
    sys.modules['z3'] = z3
    spec.loader.exec_module(z3)
