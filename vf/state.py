"""Module-, class- and function-level state of the repository, put back before every path.

A path of the explorer (and a replay) has to start from the state of a fresh import: a cache
or a counter that survives in a module, a class or a default argument would otherwise leak from
one path into the next.
"""
import copy
import types
from collections import deque

import numpy as np

MUT = (list, dict, set, bytearray, deque, np.ndarray)
SKIP = {'__builtins__', '__dict__', '__weakref__', '__doc__', '__abstractmethods__', '_abc_impl', '__cached__', '__spec__', '__loader__', '__path__', '__file__'}


def put(o, c):
    if isinstance(o, list):
        if o != c or any(x is not y for x, y in zip(o, c)):
            o[:] = c
    elif isinstance(o, dict):
        if len(o) != len(c) or any(k not in o or o[k] is not v for k, v in c.items()):
            o.clear()
            o.update(c)
    elif isinstance(o, set):
        if o != c:
            o.clear()
            o.update(c)
    elif isinstance(o, deque):
        o.clear()
        o.extend(c)
    elif isinstance(o, bytearray):
        o[:] = c
    elif o.shape == c.shape:
        np.ndarray.view(o, np.ndarray)[...] = c


class State:
    def __init__(self, mods, ignore=()):
        self.spaces = []        # (object, {name: value})
        self.muts = []          # (container, shallow copy)
        self.caches = []
        self.seen = set()
        self.own = {m.__name__ for m in mods}
        self.ignore = set(ignore) | SKIP
        for m in mods:
            self.space(m)

    def mut(self, o):
        if id(o) in self.seen:
            return
        self.seen.add(id(o))
        self.muts.append((o, copy.copy(o)))
        for e in (o.values() if isinstance(o, dict) else o if isinstance(o, (list, deque)) else ()):
            self.value(e)

    def space(self, o):
        self.seen.add(id(o))
        self.spaces.append((o, {k: v for k, v in vars(o).items() if k not in self.ignore}))
        for k, v in list(vars(o).items()):
            if k not in self.ignore:
                self.value(v)

    def value(self, v):
        if isinstance(v, MUT):
            self.mut(v)
            return
        if id(v) in self.seen:
            return
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None:
                    self.value(f)
            return
        if hasattr(v, 'cache_clear'):
            self.caches.append(v)
        if hasattr(v, '__wrapped__') and id(v.__wrapped__) not in self.seen:
            self.value(v.__wrapped__)
        if isinstance(v, types.FunctionType):
            if v.__module__ not in self.own:
                return
            self.seen.add(id(v))
            for d in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                self.value(d)
            self.mut(v.__dict__)
            for c in v.__closure__ or ():
                try:
                    self.value(c.cell_contents)
                except ValueError:
                    pass
        elif isinstance(v, type):
            if getattr(v, '__module__', None) in self.own:
                self.space(v)
        elif getattr(type(v), '__module__', None) in self.own and hasattr(v, '__dict__'):
            self.space(v)       # an instance kept at module level

    def restore(self):
        for o, d in self.spaces:
            cur = vars(o)
            if len(cur) - len(d) or any(cur.get(k, self) is not v for k, v in d.items()):
                for k in list(cur):
                    if k not in d and k not in self.ignore:
                        delattr(o, k)
                for k, v in d.items():
                    if cur.get(k, self) is not v:
                        setattr(o, k, v)
        for o, c in self.muts:
            put(o, c)
        for c in self.caches:
            c.cache_clear()
