"""C18 what the runner hands to the exporters and what a task draws"""
import os
import sys

import numpy as np

from .c01 import ctask
from .c16 import Frames, Recorded, h_run  # noqa: F401

FUNCTIONS = ['niapy.runner.Runner.run and its exporters', 'niapy.task.Task.plot_convergence', 'niapy.task.Task.convergence_data', 'niapy.task.Task.eval', 'niapy.task.Task.next_iter']
BOUNDS = 'export: 1..3 algorithms and problems in different orders, 0..2 runs, any results, the three formats; plots: histories of up to 4 (quick) / 6 (thorough) calls with symbolic objective values, both axes, minimisation and maximisation'
OUTSIDE = 'the writers of pandas and the drawing of matplotlib: the content of the real DataFrame whose writer is called is compared, and what the stand-in for pyplot is handed'
ASSUMPTIONS = ['the writers of pandas.DataFrame and matplotlib.pyplot are replaced by recorders; a run that uses other entry points of theirs is not judged']


def scenarios(tier):
    out = []
    for e in ('dataframe', 'json', 'excel'):
        for n in (1, 2):
            out.append(dict(name='export-%s-%d' % (e, n), part='export', export=e, n=n))
        out.append(dict(name='export-%s-2-sorted' % e, part='export', export=e, n=2, order=1))
        out.append(dict(name='export-%s-3' % e, part='export', export=e, n=3))
        out.append(dict(name='export-%s-again' % e, part='export', export=e, n=1, again=1))
    for opt in ('min', 'max'):
        for ax in ('iters', 'evals', None):
            out.append(dict(name='plot-%s-%s' % (opt, ax), part='plot', opt=opt, lim='none', axis=ax, n=4 if tier == 'quick' else 6, D=1))
    for sc in out:
        sc.setdefault('tl', 30 if tier == 'quick' else 200)
    return out


EXT = dict(dataframe='.pkl', json='.json', excel='.xlsx')


def h_export(env, sc):
    from niapy.runner import Runner
    P = 'C18: '
    n = sc['n']
    an, pn = ['BatAlgorithm', 'FireflyAlgorithm', 'BeesAlgorithm'][:n], ['sphere', 'griewank', 'rastrigin'][:n]
    if sc.get('order'):
        an, pn = an[::-1], pn[::-1]
    runs = int(env.int('runs', 0, 2))
    with Recorded(env) as rec, Frames() as fr:
        r = Runner(dimension=2, max_evals=10, runs=runs, algorithms=an, problems=pn)
        for k in range(2 if sc.get('again') else 1):
            del rec.calls[:], fr.written[:]
            res = r.run(export=sc['export'])
            kept(env, res, rec, an, pn, runs)
            kept(env, r.results, rec, an, pn, runs)
            if not fr.made:
                env.reach(P + 'export not seen')
                return
            env.check(len(fr.written) == 1, P + 'one file is written')
            for how, path, data in fr.written:
                env.check(isinstance(path, (str, os.PathLike)) and str(path).endswith(EXT[sc['export']]), P + 'the file has the extension of its format')
                env.check(how == dict(dataframe='to_pickle', json='to_json', excel='to_excel')[sc['export']], P + 'the file has the format asked for')
                env.check(os.path.dirname(str(path)) == 'export' and os.path.isdir('export'), P + 'the file is written to the export directory')
                env.check(isinstance(data, dict) and set(data) == set(an) and all(set(data[a]) == set(pn) for a in an), P + 'the exported data has a column per algorithm and a row per problem')
                if not (isinstance(data, dict) and set(data) == set(an) and all(set(data[a]) == set(pn) for a in an)):
                    return
                for a in an:
                    for p in pn:
                        mine = [c for c in rec.calls if type(c[0]).__name__ == a and type(c[1].problem).__name__.lower() == p]
                        env.check(len(data[a][p]) == len(mine) == runs, P + 'the exported data has every run')
                        for q, c in zip(data[a][p], mine):
                            env.eq(q[0], c[3][0], P + 'the exported data is what the algorithms returned')
                            env.eq(q[1], c[3][1], P + 'the exported data is what the algorithms returned')


def kept(env, res, rec, an, pn, runs):
    P = 'C18: exporting changes nothing of the results'
    whole = isinstance(res, dict) and set(res) == set(an) and all(isinstance(res[a], dict) and set(res[a]) == set(pn) and all(len(v) == runs for v in res[a].values()) for a in an)
    env.check(whole, P)
    for a in an if whole else []:
        for p in pn:
            mine = [c for c in rec.calls if type(c[0]).__name__ == a and type(c[1].problem).__name__.lower() == p]
            for q, c in zip(res[a][p], mine):
                env.eq(q[0], c[3][0], P)
                env.eq(q[1], c[3][1], P)


class Plots:
    """stands in for the drawing functions of pyplot"""
    NAMES = ('subplots', 'plot', 'step', 'figure', 'axes', 'gca', 'show', 'xlabel', 'ylabel', 'title')

    def __init__(self):
        self.drawn, self.labels, self.shown = [], {}, 0

    def __enter__(self):
        me = self

        class Any:
            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                if n in ('plot', 'step', 'semilogy', 'semilogx', 'loglog'):
                    return lambda *a, **k: me.drawn.append(a)
                if n in ('set_xlabel', 'set_ylabel', 'set_title'):
                    return lambda t, *a, **k: me.labels.__setitem__(n[4:], t)
                return Any()

            def __call__(self, *a, **k): return Any()
            def __iter__(self): return iter([Any(), Any()])
        self.mod = sys.modules['matplotlib.pyplot']
        self.saved = {n: vars(self.mod).get(n, me) for n in self.NAMES}
        m = self.mod
        m.subplots = lambda *a, **k: (Any(), Any())
        m.plot = m.step = lambda *a, **k: me.drawn.append(a)
        m.figure = m.axes = m.gca = lambda *a, **k: Any()
        m.show = lambda *a, **k: setattr(me, 'shown', me.shown + 1)
        for n in ('xlabel', 'ylabel', 'title'):
            setattr(m, n, lambda t, *a, _n=n, **k: me.labels.__setitem__(_n, t))
        return self

    def __exit__(self, *a):
        for n, v in self.saved.items():
            if v is self:
                if n in vars(self.mod):
                    delattr(self.mod, n)
            else:
                setattr(self.mod, n, v)


def h_plot(env, sc):
    log = []
    t, s, me, mi, cut = ctask(env, sc, log)
    P = 'C18: '
    bests, iters, best = [], [], None
    for k in range(sc['n']):
        n0 = len(log)
        if env.pick('op%d' % k, ['eval', 'next']) == 'eval':
            x = env.vec('x%d' % k, 1, -1, 1)
            env.trace(x)
            t.eval(x)
            if len(log) > n0:
                v = log[-1][1]
                if best is None or v * s < best * s:
                    best = v
                bests.append(best)
        else:
            if best is None:
                return      # nothing to draw before the first evaluation
            t.next_iter()
            iters.append(best)
    before = [list(v) for ax in ('iters', 'evals') for v in t.convergence_data(ax)]
    count = t.evals, t.iters, t.x_f
    with Plots() as pl:
        t.plot_convergence(*([] if sc['axis'] is None else [sc['axis']]), title='T')
    after = [list(v) for ax in ('iters', 'evals') for v in t.convergence_data(ax)]
    for u, v in zip(before, after):
        env.check(len(u) == len(v), P + 'plotting changes nothing of the convergence data')
        for i, j in zip(u, v):
            env.eq(i, j, P + 'plotting changes nothing of the convergence data')
    for i, j in zip(count, (t.evals, t.iters, t.x_f)):
        env.eq(i, j, P + 'plotting changes neither counters nor best value')
    ev = sc['axis'] == 'evals'
    if not pl.drawn:
        env.reach(P + 'plot not seen')
        return
    env.check(len(pl.drawn) == 1 and len(pl.drawn[0]) >= 2, P + 'one line is drawn')
    if not (len(pl.drawn) == 1 and len(pl.drawn[0]) >= 2):
        return
    xs, ys = pl.drawn[0][:2]
    env.check(len(xs) == len(ys), P + 'as many values as positions')
    if ev:
        env.check(len(xs) <= len(bests) and (len(xs) > 0 or not bests), P + 'the evaluations are drawn')
    else:
        env.check(len(xs) == len(iters), P + 'every iteration is drawn')
    want = bests if ev else iters
    for i in range(min(len(xs), len(ys), len(want))):
        env.eq(xs[i], i + (1 if ev else 0), P + 'the positions are the numbers of the evaluations or iterations')
        env.eq(ys[i], want[i], P + 'the values are the best found so far')
    if ev and bests:
        env.eq(ys[-1], best, P + 'the line ends at the best value found')
    env.check(pl.labels.get('title') == 'T', P + 'the graph has the title asked for')
    env.check(('eval' in str(pl.labels.get('xlabel', '')).lower()) == ev, P + 'the axis is labelled by what it shows')


def harness(env, sc):
    dict(export=h_export, plot=h_plot)[sc['part']](env, sc)
