"""Analyses leave the caller's arrays alone."""
from .common import matrices, stochastic
from .c22 import weights, PATH3
from .c16 import data

PAIR = ((1,), (0,))


class Kept:
    """arrays handed to an analysis and their contents"""

    def __init__(self, c):
        self.c, self.a, self.l = c, [], []

    def __call__(self, name, nested, kind=None):
        a = self.c.array(nested, kind) if kind else self.c.array(nested)
        self.a.append((name, a, nested))
        return a

    def list(self, name, v):
        """a plain list"""
        a = [list(r) if isinstance(r, list) else r for r in v]
        self.l.append((name, a, v))
        return a

    def check(self, when=''):
        c = self.c
        for name, a, was in self.l:
            c.check(name + ' unchanged' + when, len(a) == len(was))
            for p, q in zip(a, was):
                c.check(name + ' unchanged' + when, c.all_([c.eq(u, v) for u, v in zip(p, q)]) if isinstance(q, list) and len(p) == len(q) else not isinstance(q, list) and (p == q if isinstance(q, str) else c.eq(p, q)))
        for name, a, nested in self.a:
            want = nested if isinstance(nested[0], list) else [v for v in nested]
            c.check_eq(name + ' unchanged' + when, a, want)


def chain(c, fill, classes=False, free=1):
    K = Kept(c)
    y = K('classes', c.fds('y', (free, 3), 0, 2) + [[0, 1, 1], [1, 0, 0]][free - 1:])
    cl = K('class list', [0, 1, 2]) if classes or fill else None
    m = c.g.markov.Markov(y, classes=cl, fill_empty_classes=fill, summary=False)
    K.check()
    p, t = c.copy(m.p), c.copy(m.transitions)
    m.sojourn_time
    K.check()
    c.check_eq('own probabilities unchanged', m.p, p)
    c.check_eq('own transitions unchanged', m.transitions, t)


def matrix(c, what, k, empty=False, ints=False):
    P, adj = matrices(c, k, empty, ints)
    K = Kept(c)
    a = K('probabilities', P, 'f')
    f = dict(steady=lambda: c.g.ergodic.steady_state(a, fill_empty_classes=empty), mfpt=lambda: c.g.ergodic.mfpt(a, fill_empty_classes=empty), sojourn=lambda: c.g.markov.sojourn_time(a, summary=False),
             prais=lambda: c.g.markov.prais(a))[what]
    f()
    K.check()


def whole(c, what, k):
    """steady states, first passage times and their variances of ergodic chains"""
    P, adj = matrices(c, k, irreducible=True, pos=True)
    K = Kept(c)
    a = K('probabilities', P, 'f')
    {'variance': lambda: c.g.ergodic.var_mfpt_ergodic(a), 'steady': lambda: c.g.ergodic.steady_state(a), 'mfpt': lambda: c.g.ergodic.mfpt(a)}[what]()
    K.check()


def integer_matrix(c, what):
    K = Kept(c)
    a = K('probabilities', [[0, 1], [1, 0]])
    {'variance': lambda: c.g.ergodic.var_mfpt_ergodic(a), 'steady': lambda: c.g.ergodic.steady_state(a), 'mfpt': lambda: c.g.ergodic.mfpt(a)}[what]()
    K.check()


def mobility(c, measure, k):
    K = Kept(c)
    a = K('probabilities', stochastic(c, k), 'f')
    w = c.reals('w', (k,), 0, 1)
    ini = K('initial distribution', w, 'f')
    c.g.mobility.markov_mobility(a, measure=measure, ini=ini)
    K.check()


def tables(c, what, k, m):
    K = Kept(c)
    T = c.ints('t', (m, k, k), 1, 9, relaxed=True)
    if what == 'chi2':
        a, b = K('first', T[0], 'f'), K('second', T[1], 'f')
        c.g.markov.chi2(a, b)
    elif what == 'homogeneity':
        a = K('counts', T, 'f')
        c.g.markov.homogeneity(a, regime_names=K.list('regime names', ['r%d' % i for i in range(m)]), class_names=K.list('class names', ['c%d' % i for i in range(k)]))
    else:
        a = K('counts', T, 'f')
        c.g.markov.kullback(a)
    K.check()


def lagged(c, mode, perms, n=2):
    graph = PAIR if n == 2 else PATH3
    w = weights(c, n, graph)
    w.transform = 'r'
    K = Kept(c)
    kw = dict(permutations=perms)
    if mode == 'disc':
        y = K('classes', c.fds('y', (n, 2), 0, 1))
        kw.update(discrete=True)
    else:
        y = K('values', [[c.real('y0', 0, 9), 3], [4, 5]] + [[1, 8]] * (n - 2), 'f')
        if mode == 'cut':
            kw.update(cutoffs=K('cutoffs', [2, 4], 'f'), lag_cutoffs=K('lag cutoffs', [3], 'f'))
        elif mode == 'lists':
            kw.update(cutoffs=K.list('cutoffs', [2, 4]), lag_cutoffs=K.list('lag cutoffs', [3]))
        else:
            kw.update(k=2, m=2, fixed=mode == 'fixed')
    m = c.g.markov.Spatial_Markov(y, w, **kw)
    K.check()
    if perms == 0:
        m.chi2
    K.check(' by its tests')
    c.check('weights unchanged', [sorted(w.neighbors[i]) for i in range(n)] == [sorted(g) for g in graph])


def lisa(c):
    n, t = 3, 2
    w = weights(c, n, PATH3)
    K = Kept(c)
    a = K('values', data(c, n, t), 'f')
    for s in range(t):
        for i in range(n):
            v = 1 + (i + s) % 4
            c.fd(f'moran_q{s}_{i}', v, v)
    m = c.g.markov.LISA_Markov(a, w, permutations=9)
    K.check()
    m.spillover()
    m.spillover(quadrant=3, neighbors_on=True)
    K.check(' by the spill-over analysis')
    q = [[1 + (i + s) % 4 for s in range(t)] for i in range(n)]
    c.check_eq('quadrants kept', m.q, q)


def ranks(c, which, n, t):
    K = Kept(c)
    y = K('values', c.reals('y', (n, t), 0, 9), 'f')
    {'full': c.g.markov.FullRank_Markov, 'geo': c.g.markov.GeoRank_Markov}[which](y, summary=False, fill_empty_classes=True)
    K.check()


def series(c, what, perms, ints=False, y=(2, 2, 1)):
    n = 3
    v = [[(c.fd(f'{q}{i}', 0, 2) if ints else c.real(f'{q}{i}', 0, 9)) if q == 'x' or y is None else y[i] for i in range(n)] for q in 'xy']
    K = Kept(c)
    x, y = (K(q, r) if ints else K(q, r, 'f') for q, r in zip('xy', v))
    w = weights(c, n, PATH3)
    R = c.g.rank
    reg = None
    if what == 'regional':
        reg = K.list('regimes', [0, 0, 1]) if ints else K('regimes', [0, 0, 1])
    try:
        if what == 'tau':
            R.Tau(x, y)
        elif what == 'spatial':
            R.SpatialTau(x, y, w, permutations=perms)
        elif what == 'local':
            R.Tau_Local(x, y)
        elif what == 'neighbor':
            R.Tau_Local_Neighbor(x, y, w, permutations=perms)
        elif what == 'neighborhood':
            R.Tau_Local_Neighborhood(x, y, w, permutations=perms)
        elif what == 'regional':
            R.Tau_Regional(x, y, reg, permutations=perms)
    except ZeroDivisionError:
        c.assume(False)
    K.check()


def theta(c, n, t, perms):
    K = Kept(c)
    y = K('values', [[c.real(f'y{i}_{s}', 0, 9) if s == 1 else (2 * i + s) % n for s in range(t)] for i in range(n)], 'f')
    reg = K('regimes', [i % 2 for i in range(n)])
    c.g.rank.Theta(y, reg, permutations=perms)
    K.check()


def sequences(c, kind, free=1):
    K = Kept(c)
    y = K('sequences', c.fds('y', (free, 3), 0, 2) + [[2, 0, 1], [0, 1, 1]][free - 1:])
    if kind == 'user':
        S = K('costs', [[c.real('s', 0, 9), 2, 1], [2, 1, 3], [4, 3, 0]], 'f')
        c.g.sequence.Sequence(y, subs_mat=S, indel=2)
    elif kind == 'words':
        c.g.sequence.Sequence(K.list('words', ['ABC', 'CAB', 'AAC']), dist_type='hamming')
    else:
        c.g.sequence.Sequence(y, dist_type=kind)
    K.check()


def rose(c, perms):
    K = Kept(c)
    w = weights(c, 3, PATH3)
    y = K('values', [[0, c.real('y', -9, 9)], [1, -1], [2, 3]], 'f')
    r = c.g.directional.Rose(y, w, k=4)
    K.check()
    r.permute(perms)
    K.check(' by permuting')
    r.permute(perms, 'positive')
    K.check(' by permuting')


def plots(c):
    K = Kept(c)
    w = weights(c, 3, PATH3)
    y = K('values', [[0, c.real('y', -9, 9)], [1, -1], [2, 3]], 'f')
    at = K('attribute', [1, 2, 3], 'f')
    r = c.g.directional.Rose(y, w, k=4)
    th, ln = c.copy(r.theta), c.copy(r.r)
    c.g.plotting.dynamic_lisa_rose(r, attribute=at)
    c.g.plotting.dynamic_lisa_vectors(r)
    c.g.plotting.dynamic_lisa_heatmap(r)
    r.plot_origin()
    K.check()
    c.check_eq('angles kept', r.theta, th)
    c.check_eq('lengths kept', r.r, ln)


MOB = ['P', 'D', 'L2', 'B1', 'B2']


def H(name, fn, quick, thorough=None, **kw):
    return dict(name=name, fn=fn, quick=quick, thorough=thorough or quick, **kw)


HARNESSES = [
    H('chain', chain, [dict(fill=False), dict(fill=True), dict(fill=False, classes=True)], [dict(fill=False, free=2), dict(fill=True, free=2)]),
    H('matrix', matrix, [dict(what=w, k=2, empty=e) for w in ('steady', 'mfpt', 'sojourn', 'prais') for e in (False, True)], [dict(what=w, k=3, empty=e) for w in ('steady', 'mfpt', 'sojourn') for e in (False, True)]),
    H('whole', whole, [dict(what=w, k=2) for w in ('variance', 'steady', 'mfpt')], [dict(what=w, k=3) for w in ('variance', 'steady', 'mfpt')]),
    H('integer_matrix', integer_matrix, [dict(what=w) for w in ('variance', 'steady', 'mfpt')]),
    H('mobility', mobility, [dict(measure=m, k=2) for m in MOB], [dict(measure=m, k=3) for m in MOB]),
    H('tables', tables, [dict(what='chi2', k=2, m=2), dict(what='homogeneity', k=2, m=2), dict(what='kullback', k=2, m=2)], [dict(what='homogeneity', k=2, m=3), dict(what='chi2', k=3, m=2)]),
    H('lagged', lagged, [dict(mode=m, perms=0) for m in ('disc', 'cut', 'lists', 'quant', 'fixed')] + [dict(mode='cut', perms=1)], [dict(mode=m, perms=p, n=3) for m in ('cut', 'lists', 'quant', 'fixed') for p in (0, 1)]),
    H('lisa', lisa, [{}]),
    H('ranks', ranks, [dict(which=w, n=2, t=2) for w in ('full', 'geo')], [dict(which=w, n=3, t=2) for w in ('full', 'geo')]),
    H('series', series, [dict(what=w, perms=p, ints=i) for w, p, i in (('tau', 0, False), ('tau', 0, True), ('spatial', 0, False), ('spatial', 1, True), ('local', 0, False), ('neighbor', 1, True), ('neighborhood', 0, True), ('regional', 1, True), ('regional', 1, False))],
      [dict(what=w, perms=1, ints=True, y=None) for w in ('neighborhood', 'neighbor', 'spatial', 'regional')] + [dict(what=w, perms=1) for w in ('neighbor', 'spatial')]),
    H('theta', theta, [dict(n=4, t=3, perms=1)], [dict(n=4, t=3, perms=2)]),
    H('sequences', sequences, [dict(kind=k) for k in ('user', 'words', 'interval', 'hamming', 'arbitrary', 'markov', 'tran')], [dict(kind=k, free=2) for k in ('user', 'interval', 'hamming', 'arbitrary', 'markov', 'tran')]),
    H('rose', rose, [dict(perms=1)]),
    H('plots', plots, [{}], drawing=True),
]
OUTSIDE = 'larger inputs than listed; weights objects (analyses standardise them by convention); inputs that are not numpy arrays'
