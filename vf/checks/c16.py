"""C16 the runner: every run of every pair of algorithm and problem, each on a task of its own"""
import os
import shutil
import sys
import tempfile

import numpy as np

from ..alg import Missing

FUNCTIONS = ['niapy.runner.Runner.__init__, run, task_factory', 'niapy.util.factory.get_algorithm', 'niapy.task.Task.__init__']
BOUNDS = '1..3 algorithms (by name and as instances), 1..3 problems (by name and as instances), 0..3 runs, symbolic dimension 1..3 and evaluation limit 1..1000; what the algorithms return is symbolic; ' \
         'all algorithm names the library exports'
OUTSIDE = 'two algorithms (or two problems) of the same name, whose results share a key; the algorithms themselves (C03-C09) - the run method of the classes is replaced by a recorder'
ASSUMPTIONS = ['pandas is replaced by a recorder: writing the file is outside (see C18)']

# what -> (kind, name)
ALGS = [[('name', 'BatAlgorithm')], [('obj', 'FireflyAlgorithm')], [('name', 'BatAlgorithm'), ('obj', 'FireflyAlgorithm')],
        [('obj', 'GreyWolfOptimizer'), ('name', 'BatAlgorithm'), ('name', 'SelfAdaptiveDifferentialEvolution')]]
PROBS = [[('name', 'sphere')], [('obj', 'Ackley')], [('obj', 'Ackley'), ('name', 'griewank')], [('name', 'Rastrigin'), ('name', 'levy'), ('obj', 'Sphere')]]


def scenarios(tier):
    out = []
    for i in range(len(ALGS)):
        for j in range(len(PROBS)):
            if tier == 'quick' and i == 3 and j == 3:
                continue
            out.append(dict(name='run-a%d-p%d' % (i, j), part='run', a=i, p=j, rmax=3 if i + j < 4 else 2))
    out.append(dict(name='run-again', part='run', a=2, p=2, rmax=2, again=1))
    out.append(dict(name='run-override', part='run', a=2, p=2, rmax=2, override=1))
    out.append(dict(name='run-str-alg', part='run', a=0, p=2, rmax=2, stra=1))
    out.append(dict(name='run-str-prob', part='run', a=2, p=0, rmax=2, strp=1))
    out.append(dict(name='verbose', part='run', a=2, p=2, rmax=2, verbose=1))
    for e in ('dataframe', 'json', 'excel', 'bad'):
        out.append(dict(name='export-%s' % e, part='run', a=0, p=0, rmax=1, export=e))
    for k in range(4):
        out.append(dict(name='names-%d' % k, part='names', k=k))
    for sc in out:
        sc.setdefault('tl', 20 if tier == 'quick' else 120)
    return out


def real_pandas():
    """pandas itself, which the symbolic process replaces by a stub to load faster"""
    global PANDAS
    if PANDAS is None:
        stubs = {k: sys.modules.pop(k) for k in ('pandas', 'matplotlib', 'matplotlib.pyplot', 'matplotlib.ticker') if not hasattr(sys.modules.get(k), '__file__') and k in sys.modules}
        import pandas
        PANDAS = pandas
        sys.modules.update(stubs)
    return PANDAS


PANDAS = None


class Frames:
    """a pandas.DataFrame that remembers what would be written, and where"""

    def __init__(self):
        self.made, self.written = [], []

    def __enter__(self):
        fr = self

        class Frame(real_pandas().DataFrame):
            @property
            def _constructor(self):
                return Frame

            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                fr.made.append(1)

            def vf_write(self, how, path):
                data = {}
                for j, c in enumerate(self.columns):
                    data[c] = {i: self.iloc[k, j] for k, i in enumerate(self.index)}
                fr.written.append((how, path, data))

        for n in dir(Frame):
            if n in ('to_pickle', 'to_json', 'to_excel', 'to_csv', 'to_parquet', 'to_html', 'to_latex', 'to_hdf', 'to_feather', 'to_xml', 'to_markdown', 'to_sql', 'to_stata', 'to_orc'):
                setattr(Frame, n, lambda self, path=None, *a, _n=n, **k: self.vf_write(_n, path))
        self.mod = sys.modules['pandas']
        self.had = 'DataFrame' in vars(self.mod)
        self.old = vars(self.mod).get('DataFrame')
        self.mod.DataFrame = Frame
        sys.modules['pandas'] = real_pandas()       # pandas imports itself while it works
        self.cwd = os.getcwd()
        self.tmp = tempfile.mkdtemp(prefix='vf-c16-')
        os.chdir(self.tmp)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.tmp, ignore_errors=True)
        sys.modules['pandas'] = self.mod
        if self.had:
            self.mod.DataFrame = self.old
        else:
            del self.mod.DataFrame


class Recorded:
    """replace the run method of every algorithm class by one that records the call"""

    def __init__(self, env):
        self.env, self.calls, self.saved = env, [], []

    def __enter__(self):
        from niapy.algorithms.algorithm import Algorithm
        rec = self

        def run(alg, task):
            k = len(rec.calls)
            x, f = rec.env.vec('x%d' % k, 2, -5, 5), rec.env.real('f%d' % k, -100, 100)
            state = (task.evals, task.iters)
            # a used task must not come again, however far the run got
            task.evals += rec.env.int('evals%d' % k, 1, 9)
            task.iters += rec.env.int('iters%d' % k, 0, 3)
            rec.calls.append((alg, task, state, (x, f)))
            rec.env.trace(x)
            return x, f
        st, seen = [Algorithm], set()
        while st:
            c = st.pop()
            if c in seen:
                continue
            seen.add(c)
            st += c.__subclasses__()
            if 'run' in vars(c):
                self.saved.append((c, vars(c)['run']))
                c.run = run
        return self

    def __exit__(self, *a):
        for c, r in self.saved:
            c.run = r


def cls_of(name):
    import niapy.algorithms.basic as b
    import niapy.algorithms.modified as m
    import niapy.algorithms.other as o
    for mod in (b, m, o):
        if hasattr(mod, name):
            return getattr(mod, name)
    raise Missing(name)


def h_run(env, sc):
    from niapy.runner import Runner
    from niapy.task import Task
    import niapy.problems as pb
    P = 'C16: '
    D = int(env.int('dimension', 1, 3))
    me = env.int('max_evals', 1, 1000)
    runs = int(env.int('runs', 0, sc['rmax']))
    algs, probs = [], []
    for k, n in ALGS[sc['a']]:
        algs.append((n, n if k == 'name' else cls_of(n)(seed=1)))
    for k, n in PROBS[sc['p']]:
        probs.append((n, n if k == 'name' else getattr(pb, n)(dimension=D)))
    made = []

    class Mine(Runner):
        def task_factory(self, name):
            t = Task(problem=name, max_iters=5) if not isinstance(name, str) else Task(problem=name, dimension=D, max_iters=5)
            made.append(t)
            return t
    R = Mine if sc.get('override') else Runner
    aa, pp = [a for _, a in algs], [p for _, p in probs]
    if sc.get('stra'):
        aa = aa[0]
    if sc.get('strp'):
        pp = pp[0]
    export = sc.get('export', 'json')
    with Recorded(env) as rec, Frames() as fr:
        r = R(dimension=D, max_evals=me, runs=runs, algorithms=aa, problems=pp)
        for again in range(2 if sc.get('again') else 1):
            del rec.calls[:]
            try:
                res = r.run(export=export if export != 'bad' else 'nonsense', verbose=bool(sc.get('verbose')))
            except TypeError:
                env.check(export == 'bad', P + 'only an unsupported export format is an error')
                return
            except (KeyError, ValueError, AttributeError, IndexError):
                env.check(False, P + 'the runner runs every algorithm on every problem')
                return
            env.check(export != 'bad', P + 'an unsupported export format is an error')
            if export == 'bad':
                return
            # ------ the results
            env.check(isinstance(res, dict) and set(res) == {n for n, _ in algs}, P + 'results are reported under the names of the algorithms')
            env.check(len(rec.calls) == runs * len(algs) * len(probs), P + 'as many runs as asked for')
            if set(res) != {n for n, _ in algs} or len(rec.calls) != runs * len(algs) * len(probs):
                return
            tasks = []
            for an, a in algs:
                env.check(set(res[an]) == {n for n, _ in probs}, P + 'results are reported under the names of the problems')
                if set(res[an]) != {n for n, _ in probs}:
                    return
                for pn, p in probs:
                    rs = res[an][pn]
                    env.check(len(rs) == runs, P + 'as many results as runs')
                    if len(rs) != runs:
                        return
                    mine = [c for c in rec.calls if (c[0] is a if not isinstance(a, str) else type(c[0]).__name__ == a)
                            and (c[1].problem is p if not isinstance(p, str) else type(c[1].problem).__name__.lower() == pn.lower())]
                    env.check(len(mine) == runs, P + 'the algorithm asked for is run on the problem asked for, as often as asked for')
                    for q, (alg, task, state, (x, f)) in zip(rs, mine):
                        env.eq(q[0], x, P + 'a result is what the algorithm returned, in order')
                        env.eq(q[1], f, P + 'a result is what the algorithm returned, in order')
                        env.eq(state[0], 0, P + 'every run gets a fresh task')
                        env.eq(state[1], 0, P + 'every run gets a fresh task')
                        env.check(not any(task is t for t in tasks), P + 'every run gets a fresh task')
                        tasks.append(task)
                        env.check(task.dimension == D, P + 'the task has the dimension of the runner')
                        if sc.get('override'):
                            env.check(any(task is t for t in made), P + 'an overridden task factory is used')
                        else:
                            env.check(task.max_evals == me, P + 'the task has the evaluation limit of the runner')
                            env.check(S_inf(task.max_iters), P + 'the task has no other limit')
            env.check(r.results is res or r.results == res, P + 'the results are kept')


def S_inf(v):
    return isinstance(v, float) and v == np.inf


def h_names(env, sc):
    """every exported algorithm can be built by its name"""
    P = 'C16: '
    import niapy.algorithms.basic as b
    import niapy.algorithms.modified as m
    import niapy.algorithms.other as o
    from niapy.util.factory import get_algorithm
    from niapy.algorithms.algorithm import Algorithm
    names = []
    for mod in (b, m, o):
        for n in dir(mod):
            c = getattr(mod, n)
            if isinstance(c, type) and issubclass(c, Algorithm) and c is not Algorithm and n == c.__name__ and n in getattr(mod, '__all__', [n]):
                names.append((n, c))
    names = names[sc['k']::4]
    i = int(env.int('i', 0, len(names) - 1))
    n, c = names[i]
    ps = env.int('population_size', 5, 60)
    try:
        a = get_algorithm(n, seed=1, **({} if n == 'ParameterFreeBatAlgorithm' else {'population_size': ps}))
    except KeyError:
        env.check(False, P + 'an exported algorithm can be built by its name')
        return
    except TypeError:
        a = get_algorithm(n, seed=1)
    env.check(type(a) is c, P + 'an algorithm built by name has the class of that name')
    try:
        get_algorithm(n + 'x')
    except KeyError:
        env.reach(P + 'an unknown name is an error')
    else:
        env.check(False, P + 'an unknown name is an error')


PARTS = dict(run=h_run, names=h_names)


def harness(env, sc):
    PARTS[sc['part']](env, sc)
