"""Import the repository's real source and put the symbolic front end under it."""
import builtins
import importlib
import math
import os
import pkgutil
import random as pyrandom
import sys
import types

import numpy as np

SRC = os.environ.get('VF_SRC', '/repo/src')


def stub_heavy():
    """pandas and matplotlib are only used for file export and plots"""
    class Any(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return Any(n)

        def __call__(self, *a, **k):
            return Any('x')
    for m in ('pandas', 'matplotlib', 'matplotlib.pyplot', 'matplotlib.ticker'):
        sys.modules[m] = Any(m)
    sys.modules['matplotlib'].pyplot = sys.modules['matplotlib.pyplot']
    sys.modules['matplotlib'].ticker = sys.modules['matplotlib.ticker']


def import_niapy(light=True):
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    if SRC not in sys.path[:1]:
        sys.path.insert(0, SRC)
    if light:
        stub_heavy()
        from . import astx
        astx.install()
    import niapy
    assert os.path.realpath(niapy.__file__).startswith(os.path.realpath(SRC)), niapy.__file__
    for m in pkgutil.walk_packages(niapy.__path__, 'niapy.'):
        importlib.import_module(m.name)
    return [m for n, m in list(sys.modules.items()) if n == 'niapy' or n.startswith('niapy.')]


class Proxy:
    """late-bound attribute of the current environment's shim"""


class Patcher:
    def __init__(self, mods):
        self.mods = mods
        self.sites = []
        for m in mods:
            for name, val in list(vars(m).items()):
                k = self.kind(val)
                if k:
                    self.sites.append((m, name, k, val))
        from .state import State
        self.state = State(mods, self.BINS)

    @staticmethod
    def kind(val):
        if val is np:
            return ('np',)
        if val is math:
            return ('math',)
        if val is pyrandom:
            return ('pyrandom',)
        if val is np.random:
            return ('nprandom',)
        if val is np.linalg:
            return ('attr', 'linalg')
        if val is np.random.default_rng:
            return ('rng', 'default_rng')
        if isinstance(val, (types.FunctionType, types.BuiltinFunctionType, np.ufunc)) and not getattr(val, '__module__', '').startswith('niapy'):
            n = getattr(val, '__name__', '')
            if getattr(math, n, None) is val:
                return ('mathf', n)
            if getattr(np, n, None) is val:
                return ('attr', n)
            if getattr(np.random, n, None) is val:
                return ('rng', n)
            if getattr(pyrandom, n, None) is val:
                return ('pyrng', n)
        return None

    BINS = ('float', 'int', 'round', 'min', 'max')

    def patch(self, env):
        from . import npshim
        from .core import PyRandom
        self.state.restore()
        shim = npshim.NPShim(env)
        ms = npshim.MathShim()
        pr = PyRandom(env)
        for m, name, k, val in self.sites:
            v = {'np': lambda: shim, 'math': lambda: ms, 'pyrandom': lambda: pr, 'nprandom': lambda: shim.random,
                 'attr': lambda: getattr(shim, k[1]), 'rng': lambda: getattr(shim.random, k[1]),
                 'mathf': lambda: getattr(ms, k[1]), 'pyrng': lambda: getattr(pr, k[1])}[k[0]]()
            setattr(m, name, v)
        b = dict(float=npshim.SFloat, int=npshim.SInt, round=npshim.sround, min=npshim.smin, max=npshim.smax)
        for m in self.mods:
            for n, f in b.items():
                if n not in vars(m) or vars(m)[n] in (npshim.SFloat, npshim.SInt, npshim.sround, npshim.smin, npshim.smax):
                    setattr(m, n, f)
        self.shim = shim
        return shim


class RngPatcher:
    """Replay: the real modules, with only the sources of randomness answered
    from the witness (a numpy Generator subclass)."""

    def __init__(self, mods):
        self.sites = []
        for m in mods:
            for name, val in list(vars(m).items()):
                if val is np.random.default_rng:
                    self.sites.append((m, name))
        self.real = np.random.default_rng
        from .state import State
        self.state = State(mods)

    def patch(self, env):
        from .rng import TapeGenerator
        self.state.restore()
        real = self.real
        env.new_rng = lambda tag: TapeGenerator(env, tag)

        def default_rng(seed=None):
            if isinstance(seed, np.random.Generator):
                return seed
            if seed is None:
                env.foreign_count += 1
                return real([env.gen.randrange(2 ** 31), env.foreign_salt, env.foreign_count])
            real(seed)
            if isinstance(seed, (list, tuple, np.ndarray)):
                return TapeGenerator(env, 'seed' + '_'.join(str(s) for s in seed))
            return TapeGenerator(env, 'seed%s' % seed)
        for m, n in self.sites:
            setattr(m, n, default_rng)
        np.random.default_rng = default_rng

    def restore(self):
        for m, n in self.sites:
            setattr(m, n, self.real)
        np.random.default_rng = self.real
