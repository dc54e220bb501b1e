"""Classes of values and spatial lags in a spatial Markov analysis."""
from .spatial import setup, lag, below
from .common import hood
from .c22 import weights, PATH4


def cutoffs(c, n, t, k=None, m=None, graph=None, row=True, wide=None, ids=None):
    if wide:
        k, m = len(wide['cut']) + 1, len(wide['lcut']) + 1
    s, y, w, cut, lcut = setup(c, n, t, 'cut', k, m, graph=graph, row=row, wide=wide, ids=ids)
    c.check('number of classes', s.k == k)
    c.check('number of lag classes', s.m == m)
    c.check_eq('classes', s.classes, list(range(k)))
    c.check_eq('lag classes', s.lclasses, list(range(m)))
    c.check_eq('cutoffs', s.cutoffs, cut)
    c.check_eq('lag cutoffs', s.lag_cutoffs, lcut)
    L = lag(c, w, y)
    c.check_eq('class of every value', s.class_ids, [[below(c, cut, v) for v in r] for r in y])
    c.check_eq('class of every lag', s.lclass_ids, [[below(c, lcut, v) for v in r] for r in L])


def quantiles(c, n, t, k, m, fixed, graph, wide=None):
    s, y, w, _, _ = setup(c, n, t, 'quant', k, m, fixed=fixed, graph=graph, wide=wide)
    L = lag(c, w, y)
    for name, v, got, q, kk in (('value', y, s.class_ids, k, s.k), ('lag', L, s.lclass_ids, m, s.m)):
        if fixed:
            b = c.quantiles(c.array([x for r in v for x in r], 'f'), q)
            b = [b] * t
            c.check('number of classes of the ' + name, kk == len(b[0]))
        else:
            b = [c.quantiles(c.array([v[i][p] for i in range(n)], 'f'), q) for p in range(t)]
            c.check('number of classes of the ' + name, kk == q)
        # the largest value is the last cutoff, so all the others decide
        c.check_eq(f'class of every {name}', got, [[below(c, b[p][:-1], v[i][p]) for p in range(t)] for i in range(n)])
        if fixed:
            c.check_eq('cutoffs of the ' + name, s.cutoffs if name == 'value' else s.lag_cutoffs, b[0][:-1])


def mixed(c, n, t, k, m, which, graph):
    """cutoffs for only one of the two"""
    cut = c.reals('c', ((k if which == 'value' else m) - 1,), 0, 100)
    for i in range(len(cut) - 1):
        c.assume(cut[i] < cut[i + 1])
    kw = {'cutoffs' if which == 'value' else 'lag_cutoffs': c.array(cut, 'f')}
    s, y, w, _, _ = setup(c, n, t, 'quant', k, m, graph=graph, extra=kw)
    L = lag(c, w, y)
    flat = [x for r in (L if which == 'value' else y) for x in r]
    qs = c.quantiles(c.array(flat, 'f'), m if which == 'value' else k)[:-1]
    cv, cl = (cut, qs) if which == 'value' else (qs, cut)
    c.check('number of classes', s.k == len(cv) + 1)
    c.check('number of lag classes', s.m == len(cl) + 1)
    c.check_eq('class of every value', s.class_ids, [[below(c, cv, v) for v in r] for r in y])
    c.check_eq('class of every lag', s.lclass_ids, [[below(c, cl, v) for v in r] for r in L])


def categorical(c, n, t, labels, graph=None, ids=None):
    k = len(labels)
    w = c.graph(n, islands=False) if graph is None else weights(c, n, graph, ids)
    hoods = hood(w)
    x = c.fds('y', (n, t), 0, k - 1)
    x = [[int(c.value(v)) for v in r] for r in x]
    y = [[labels[v] for v in r] for r in x]
    s = c.g.markov.Spatial_Markov(c.np.array(y), w, discrete=True)
    used = sorted(set(v for r in y for v in r))
    c.check('number of classes', s.k == len(used) and s.m == len(used))
    c.check('classes', list(c.items(s.classes)) == used)
    cls, lcl = c.items(s.class_ids), c.items(s.lclass_ids)
    for p in range(t):
        for i in range(n):
            c.check('class index', cls[i][p] == used.index(y[i][p]))
            nb = hoods[i]
            votes = {q: 2 * sum(y[j][p] == used[q] for j in nb) for q in range(len(used))}
            top = max(votes.values())
            best = [q for q in votes if votes[q] == top]
            own = used.index(y[i][p])
            if own in best and len(best) > 1:
                best = [own]
            # otherwise one of the tied categories is drawn; a unit's own category adds one neighbour's weight
            elif len(best) > 1:
                votes[own] += 2
                top = max(votes.values())
                best = [q for q in votes if votes[q] == top]
            c.check('categorical lag', c.any_([lcl[i][p] == q for q in best]))


PAIR = ((1,), (0,))
PATH3 = ((1,), (0, 2), (1,))
HARNESSES = [
    dict(name='cutoffs', fn=cutoffs, quick=[dict(n=3, t=2, k=2, m=2, graph=PATH3), dict(n=3, t=2, k=2, m=2, graph=PATH3, ids=['c', 'a', 'b']), dict(n=2, t=2, k=3, m=2, graph=PAIR), dict(n=2, t=2, k=2, m=3, graph=PAIR, row=False), dict(n=1, t=2, k=5, m=2, graph=((),)),
                                                     dict(n=16, t=5, graph=('rook', 4, 4), wide=dict(seed=1, hi=90, holes=[(6, 4)], cut=[10, 20, 30, 40, 50, 60, 70, 80, 85, 88, 89], lcut=[5, 30, 50, 60])), dict(n=12, t=3, row=False, graph=('some', 12, 4), wide=dict(seed=2, hi=9, holes=[(0, 1)], cut=[3], lcut=[10, 14, 18, 20, 22, 25, 28, 30, 33, 36, 40]))],
         thorough=[dict(n=3, t=2, k=2, m=3, graph=PATH3), dict(n=2, t=2, k=4, m=3, row=False), dict(n=3, t=2, k=2, m=2), dict(n=3, t=2, k=3, m=3), dict(n=4, t=2, k=3, m=2, graph=((1, 2), (0,), (0, 3), (2,)))]),
    dict(name='quantiles', fn=quantiles,
         quick=[dict(n=2, t=2, k=2, m=2, fixed=True, graph=PAIR), dict(n=3, t=2, k=3, m=2, fixed=False, graph=PATH3),
               dict(n=6, t=4, k=5, m=4, fixed=True, graph=('rook', 2, 3), wide=dict(seed=1, hi=90, holes=[(2, 3)])), dict(n=12, t=3, k=11, m=4, fixed=False, graph=('rook', 3, 4), wide=dict(seed=2, hi=90, holes=[(2, 1)]))],
         thorough=[dict(n=3, t=2, k=2, m=3, fixed=True, graph=PATH3), dict(n=2, t=3, k=3, m=2, fixed=True, graph=PAIR), dict(n=3, t=3, k=2, m=3, fixed=False, graph=PATH3)]),
    dict(name='mixed', fn=mixed, quick=[dict(n=2, t=2, k=3, m=2, which=x, graph=PAIR) for x in ('value', 'lag')],
         thorough=[dict(n=3, t=2, k=3, m=2, which=x, graph=PATH3) for x in ('value', 'lag')]),
    dict(name='categorical', fn=categorical, quick=[dict(n=3, t=1, labels=['a', 'c', 'b'], graph=((1, 2), (0, 2), (0, 1))), dict(n=3, t=2, labels=[7, 4], graph=PATH3), dict(n=4, t=1, labels=[7, 4], graph=PATH4, ids=['d', 'a', 'c', 'b']), dict(n=4, t=1, labels=[4, 7, 9], graph=((1, 2, 3), (0,), (0,), (0,)))],
         thorough=[dict(n=3, t=2, labels=['a', 'c', 'b'], graph=((1, 2), (0, 2), (0, 1))), dict(n=3, t=2, labels=[4, 7]), dict(n=4, t=2, labels=[5, 2, 9], graph=((1, 2), (0, 3), (0, 3), (1, 2))), dict(n=3, t=2, labels=['x', 'y', 'z'])]),
]
ASSUMPTIONS = 'mapclassify supplies the quantiles and libpysal the categorical lag (documented behaviour, ties drawn at random)'
OUTSIDE = 'more units, periods or classes than listed; rounding at a cutoff; in the larger inputs all but a few cells are fixed values'
