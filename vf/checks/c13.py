"""C13 benchmark formulas: the code of every problem against its documented formula, written out point by point"""
import math

import numpy as np

from .. import sym as S
from ..sym import Sym

FUNCTIONS = ['niapy.problems.*: the evaluation of every benchmark problem']
BOUNDS = 'dimension 1..6, thorough 1..8 (Katsuura, Weierstrass and others with long sums 1..3, Powell 4 and 8, Schaffer 2); every point within the default bounds of the problem (Trid and Perm: -D^2..D^2, -D..D); default and one non-default set of parameters; Katsuura on the grid of eighths'
OUTSIDE = 'larger dimensions; sin, cos, exp, log, sqrt and fractional powers are uninterpreted functions constrained by axioms, so that candidates are confirmed in floating point before they count; relative differences below 1e-7'
ASSUMPTIONS = ['where documentation leaves an index undefined (Pinter, expanded functions) indices are cyclic, as in the cited papers']
PI = math.pi


def u(name):
    from .. import npshim

    def f(v):
        return npshim.UF1[name](v) if isinstance(v, Sym) else getattr(np, name)(v)
    return f


sin, cos, exp, sqrt, log10 = u('sin'), u('cos'), u('exp'), u('sqrt'), u('log10')


def floor(v): return S.toreal(S.floor_(v)) if isinstance(v, Sym) else np.floor(v)
def fmod(a, b): return S.fmod_(a, b) if isinstance(a, Sym) else np.fmod(a, b)
def rnd(v): return S.rint_(v) if isinstance(v, Sym) else np.round(v)


def sm(g):
    t = 0.0
    for v in g:
        t = t + v
    return t


def pr(g):
    t = 1.0
    for v in g:
        t = t * v
    return t


def ab(v): return abs(v)


def sq(v): return v * v


def ack(x, D, a=20., b=.2, c=2 * PI):
    return -a * exp(-b * sqrt(sm(sq(v) for v in x) / D)) - exp(sm(cos(c * v) for v in x) / D) + a + exp(1)


def dixon(x, D):
    return sq(x[0] - 1) + sm(i * sq(2 * sq(x[i - 1]) - x[i - 2]) for i in range(2, D + 1))


def egr(x, D):
    def g(a, b): return 100 * sq(sq(a) - b) + sq(a - 1)
    def h(z): return sq(z) / 4000 - cos(z) + 1
    return h(g(x[D - 1], x[0])) + sm(h(g(x[i - 1], x[i])) for i in range(1, D))


def levy(x, D):
    w = [1 + (v - 1) / 4 for v in x]
    return sq(sin(PI * w[0])) + sm(sq(w[i] - 1) * (1 + 10 * sq(sin(PI * w[i] + 1))) for i in range(D - 1)) + sq(w[D - 1] - 1) * (1 + sq(sin(2 * PI * w[D - 1])))


def pinter(x, D):
    t = 0.0
    for k in range(D):
        i, m, c, p = k + 1, x[(k - 1) % D], x[k], x[(k + 1) % D]
        A = m * sin(c) + sin(p)
        B = m * m - 2 * c + 3 * p - cos(c) + 1
        t = t + i * c * c + 20 * i * sq(sin(A)) + i * log10(1 + i * sq(B))
    return t


def powell(x, D):
    t = 0.0
    for i in range(D // 4):
        a, b, c, d = x[4 * i], x[4 * i + 1], x[4 * i + 2], x[4 * i + 3]
        t = t + sq(a + 10 * b) + 5 * sq(c - d) + (b - 2 * c) ** 4 + 10 * (a - d) ** 4
    return t


def xschaf(x, D):
    def g(a, b): return 0.5 + (sq(sin(sqrt(sq(a) + sq(b)))) - 0.5) / sq(1 + 0.001 * (sq(a) + sq(b)))
    return g(x[D - 1], x[0]) + sm(g(x[i - 1], x[i]) for i in range(1, D))


def whitley(x, D):
    t = 0.0
    for i in range(D):
        for j in range(D):
            z = 100 * sq(sq(x[i]) - x[j]) + sq(1 - x[j])
            t = t + sq(z) / 4000 - cos(z) + 1
    return t


def modsch(x, D):
    t = 0.0
    for v in x:
        z = v + 420.9687462275036
        if z > 500:
            m = 500 - fmod(ab(z), 500)
            g = m * sin(sqrt(ab(m))) - sq(z - 500) / (10000 * D)
        elif z < -500:
            m = fmod(ab(z), 500) - 500
            g = m * sin(sqrt(ab(m))) + sq(z - 500) / (10000 * D)
        else:
            g = z * sin(sqrt(ab(z)))
        t = t + g
    return 418.9829 * D - t


def weier(x, D, a=.5, b=3, k_max=20):
    return sm(a ** k * cos(2 * PI * b ** k * (v + .5)) for v in x for k in range(k_max + 1)) - D * sm(a ** k * math.cos(PI * b ** k) for k in range(k_max + 1))


def zak(x, D):
    s = sm(0.5 * (i + 1) * x[i] for i in range(D))
    return sm(sq(v) for v in x) + sq(s) + sq(sq(s))


def happy(x, D, alpha=.25):
    return ab(sm(sq(v) for v in x) - D) ** alpha + (0.5 * sm(sq(v) for v in x) + sm(x)) / D + 0.5


def happy_shipped(x, D, alpha=.25):
    # the value the repository's own test pins (known finding)
    return sm(ab(v * v - D) ** alpha for v in x) + sm((0.5 * v * v + v) / D for v in x) + 0.5


def hgbat(x, D):
    a, b = sm(sq(v) for v in x), sm(x)
    return sqrt(ab(a * a - b * b)) + (0.5 * a + b) / D + 0.5


def csendes(x, D):
    t = 0.0
    for v in x:
        if v != 0:
            t = t + v ** 6 * (2 + sin(1 / v))
    return t


def mx(x):
    m = ab(x[0])
    for v in x[1:]:
        a = ab(v)
        m = a if a > m else m
    return m


def rng_(i): return range(1, i + 1)


# name, formula, dimensions, (optimum, value) or None, other parameters
Z = lambda D: [0.0] * D
O = lambda D: [1.0] * D
SPEC = dict(
    Ackley=(ack, (1, 2, 3, 4), (Z, 0.), dict(a=3.0, b=0.5, c=1.25)),
    Alpine1=(lambda x, D: sm(ab(v * sin(v) + 0.1 * v) for v in x), (1, 2, 3, 4), (Z, 0.)),
    Alpine2=(lambda x, D: pr(sqrt(v) * sin(v) for v in x), (1, 2, 3, 4), (lambda D: [7.9170526982459462172] * D, lambda D: 2.8081311800070053291 ** D)),
    BentCigar=(lambda x, D: sq(x[0]) + 10 ** 6 * sm(sq(v) for v in x[1:]), (1, 2, 3, 4), (Z, 0.)),
    ChungReynolds=(lambda x, D: sq(sm(sq(v) for v in x)), (1, 2, 3, 4), (Z, 0.)),
    CosineMixture=(lambda x, D: -0.1 * sm(cos(5 * PI * v) for v in x) - sm(sq(v) for v in x), (1, 2, 3, 4), (Z, lambda D: -.1 * D)),
    Csendes=(csendes, (1, 2, 3, 4), (Z, 0.)),
    Discus=(lambda x, D: 10 ** 6 * sq(x[0]) + sm(sq(v) for v in x[1:]), (1, 2, 3, 4), (Z, 0.)),
    DixonPrice=(dixon, (1, 2, 3, 4), (lambda D: [2 ** (-(2 ** i - 2) / 2 ** i) for i in rng_(D)], 0.)),
    Elliptic=(lambda x, D: sm((10 ** 6) ** (i / (D - 1)) * sq(x[i]) for i in range(D)), (2, 3, 4), (Z, 0.)),
    Griewank=(lambda x, D: sm(sq(v) / 4000 for v in x) - pr(cos(x[i] / math.sqrt(i + 1)) for i in range(D)) + 1, (1, 2, 3, 4), (Z, 0.)),
    ExpandedGriewankPlusRosenbrock=(egr, (2, 3, 4), (O, 0.)),
    HappyCat=(happy, (1, 2, 3, 4), None, dict(alpha=0.125)),
    HGBat=(hgbat, (1, 2, 3, 4), (lambda D: [-1.] * D, 0.)),
    Katsuura=(lambda x, D: pr(1 + (i + 1) * sm(ab(2 ** j * x[i] - rnd(2 ** j * x[i])) / 2 ** j for j in rng_(32)) for i in range(D)), (1, 2, 3), (Z, 1.)),
    Levy=(levy, (1, 2, 3, 4), (O, 0.)),
    Michalewicz=(lambda x, D, m=10: -sm(sin(x[i]) * sin((i + 1) * sq(x[i]) / PI) ** (2 * m) for i in range(D)), (1, 2, 3, 4), None, dict(m=2)),
    Perm=(lambda x, D, beta=.5: sm(sq(sm((j + beta) * (x[j - 1] ** i - (1.0 / j) ** i) for j in rng_(D))) for i in rng_(D)), (1, 2, 3, 4), (lambda D: [1 / i for i in rng_(D)], 0.), dict(beta=2.0)),
    Pinter=(pinter, (1, 2, 3, 4), (Z, 0.)),
    Powell=(powell, (4, 8), (Z, 0.)),
    Qing=(lambda x, D: sm(sq(sq(x[i]) - (i + 1)) for i in range(D)), (1, 2, 3, 4), (lambda D: [math.sqrt(i) for i in rng_(D)], 0.)),
    Quintic=(lambda x, D: sm(ab(v ** 5 - 3 * v ** 4 + 4 * v ** 3 + 2 * v ** 2 - 10 * v - 4) for v in x), (1, 2, 3, 4), (lambda D: [-1.] * D, 0.)),
    Rastrigin=(lambda x, D: 10 * D + sm(sq(v) - 10 * cos(2 * PI * v) for v in x), (1, 2, 3, 4), (Z, 0.)),
    Ridge=(lambda x, D: sm(sq(sm(x[:i])) for i in rng_(D)), (1, 2, 3, 4), (Z, 0.)),
    Rosenbrock=(lambda x, D: sm(100 * sq(x[i + 1] - sq(x[i])) + sq(x[i] - 1) for i in range(D - 1)), (1, 2, 3, 4), (O, 0.)),
    Salomon=(lambda x, D: 1 - cos(2 * PI * sqrt(sm(sq(v) for v in x))) + 0.1 * sqrt(sm(sq(v) for v in x)), (1, 2, 3, 4), (Z, 0.)),
    SchafferN2=(lambda x, D: 0.5 + (sq(sin(sq(x[0]) - sq(x[1]))) - 0.5) / sq(1 + 0.001 * (sq(x[0]) + sq(x[1]))), (2,), (Z, 0.)),
    SchafferN4=(lambda x, D: 0.5 + (sq(cos(sin(sq(x[0]) - sq(x[1])))) - 0.5) / sq(1 + 0.001 * (sq(x[0]) + sq(x[1]))), (2,), None),
    ExpandedSchaffer=(xschaf, (1, 2, 3, 4), (Z, 0.)),
    SchumerSteiglitz=(lambda x, D: sm(sq(sq(v)) for v in x), (1, 2, 3, 4), (Z, 0.)),
    Schwefel=(lambda x, D: 418.9828872724338 * D - sm(v * sin(sqrt(ab(v))) for v in x), (1, 2, 3, 4), (lambda D: [420.968746] * D, 0.)),
    Schwefel221=(lambda x, D: mx(x), (1, 2, 3, 4), (Z, 0.)),
    Schwefel222=(lambda x, D: sm(ab(v) for v in x) + pr(ab(v) for v in x), (1, 2, 3, 4), (Z, 0.)),
    ModifiedSchwefel=(modsch, (1, 2, 3), (Z, 0.)),
    Sphere=(lambda x, D: sm(sq(v) for v in x), (1, 2, 3, 4), (Z, 0.)),
    Sphere2=(lambda x, D: sm(ab(x[i]) ** (i + 2) for i in range(D)), (1, 2, 3, 4), (Z, 0.)),
    Sphere3=(lambda x, D: sm(sm(sq(v) for v in x[:i]) for i in rng_(D)), (1, 2, 3, 4), (Z, 0.)),
    Step=(lambda x, D: sm(floor(ab(v)) for v in x), (1, 2, 3, 4), (Z, 0.)),
    Step2=(lambda x, D: sm(sq(floor(v + .5)) for v in x), (1, 2, 3, 4), (lambda D: [-.5] * D, 0.)),
    Step3=(lambda x, D: sm(floor(sq(v)) for v in x), (1, 2, 3, 4), (Z, 0.)),
    Stepint=(lambda x, D: 25 + sm(floor(v) for v in x), (1, 2, 3, 4), (lambda D: [-5.12] * D, lambda D: 25. - 6 * D)),
    StyblinskiTang=(lambda x, D: sm(sq(sq(v)) - 16 * sq(v) + 5 * v for v in x) / 2, (1, 2, 3, 4), (lambda D: [-2.903534018185960] * D, lambda D: -39.16616570377142 * D)),
    SumSquares=(lambda x, D: sm((i + 1) * sq(x[i]) for i in range(D)), (1, 2, 3, 4), (Z, 0.)),
    Trid=(lambda x, D: sm(sq(v - 1) for v in x) - sm(x[i] * x[i - 1] for i in range(1, D)), (1, 2, 3, 4), (lambda D: [i * (D + 1. - i) for i in rng_(D)], lambda D: -D * (D + 4) * (D - 1) / 6)),
    Weierstrass=(weier, (1, 2, 3), (Z, 0.), dict(a=.25, b=2, k_max=3)),
    Whitley=(whitley, (1, 2, 3, 4), (O, 0.)),
    Zakharov=(zak, (1, 2, 3, 4), (Z, 0.)),
)


def scenarios(tier):
    out = []
    for n, s in SPEC.items():
        dims = list(s[1])
        if dims[-1] == 4 and n != 'Powell':
            dims += [5, 6] if tier == 'quick' else [5, 6, 7, 8]
        for D in dims:
            for k, kw in enumerate([{}] + ([s[3]] if len(s) > 3 else [])):
                for w in (0, 1):        # inside the default bounds; beyond them
                    if w and (n in ('Alpine2',) or k):
                        continue
                    out.append(dict(name='%s-D%d%s%s' % (n, D, '-params' if k else '', '-wide' if w else ''), p=n, D=D, kw=kw, wide=w, tl=8 if tier == 'quick' else 60, strong=True))
    # the documented formula itself: a known finding, see known_findings.json
    out.append(dict(name='HappyCat-documented', p='HappyCat', D=2, kw={}, wide=0, documented=1, tl=8, strong=True))
    return out


def harness(env, sc):
    import niapy.problems as pb
    from ..alg import Missing
    n, D = sc['p'], sc['D']
    P = 'C13: '
    s = SPEC[n]
    if not hasattr(pb, n):
        raise Missing(n)
    kw = dict(sc['kw'])
    if not n.startswith('SchafferN'):
        kw['dimension'] = D
    p = getattr(pb, n)(**kw)
    lo, up = np.asarray(p.lower, dtype=float), np.asarray(p.upper, dtype=float)
    if sc['wide']:
        lo, up = lo - 600, up + 600
    if n == 'Katsuura':
        # multiples of 1/8: the later terms of the sum vanish, which keeps 32 roundings within reach of the solver
        x = [env.int('n%d' % i, int(lo[i]) * 8, int(up[i]) * 8) * 0.125 for i in range(D)]
        x = env.mkarray(x, (D,), 'f') if env.symbolic else np.array(x)
    else:
        x = env.vec('x', D, [float(v) for v in lo], [float(v) for v in up])
    xs = [x[i] for i in range(D)]
    got = p.evaluate(x.copy())
    env.check(np.ndim(got) == 0, P + 'the value is a scalar')
    want = s[0](xs, D, **sc['kw'])
    env.trace(np.array([got, want], dtype=object) if env.symbolic else np.array([got, want]))
    if sc.get('documented'):
        env.eq(got, want, P + 'HappyCat has the value of its documented formula')
    elif n == 'HappyCat':
        env.oneof(got, [want, happy_shipped(xs, D, **sc['kw'])], P + 'the value is that of the documented formula')
    else:
        env.eq(got, want, P + 'the value is that of the documented formula')
    if s[2] and not sc['kw'] and not sc['wide']:
        o, v = s[2]
        v = v(D) if callable(v) else v
        g = p.evaluate(env.array(o(D)))
        if not env.symbolic:
            env.check(abs(g - v) <= 1e-3 * max(1, D, abs(v)), P + 'the documented optimum has the documented value')
        else:
            env.le(ab(g - v), 1e-3 * max(1, D, abs(v)), P + 'the documented optimum has the documented value')
