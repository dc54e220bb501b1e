"""Permutation inference of the spatial Markov homogeneity test."""
from .common import table, neighbours
from .spatial import panel, decide, lag, tables, chi2_stat, cat_lag


def lag_classes(c, w, y, m, lcut, fixed):
    L = lag(c, w, y)
    if lcut is not None:
        return decide(c, lcut, L)
    t = len(y[0])
    cols = []
    for p in range(t):
        col = [r[p] for r in L]
        b = c.items(c.quantiles(c.array(col, 'f'), m))[:-1]
        cols.append(decide(c, b, [[v] for v in col]))
    return [[cols[p][i][0] for p in range(t)] for i in range(len(y))]


def permutation(c, rows, graph, perms, mode, cut=(5,), lcut=(5,), m=2, fixed=True, labels=None, fixed_draws=None):
    c.scripted = fixed_draws
    rows = table(rows)
    n, t = len(rows), len(rows[0])
    w = c.W({i: list(v) for i, v in enumerate(neighbours(graph))})
    w.transform = 'r'
    if mode == 'disc':
        k = labels
        y = [[v if v is not None else int(c.value(c.fd(f'y_{i}_{s}', 0, k - 1))) for s, v in enumerate(r)] for i, r in enumerate(rows)]
        used = sorted(set(v for r in y for v in r))
        y = [[used.index(v) for v in r] for r in y]
        k = m = len(used)
        kw = dict(discrete=True)
        a = c.array(y)
        cls = y
    else:
        y = panel(c, rows)
        k = len(cut) + 1
        kw = dict(cutoffs=c.array(list(cut), 'f'))
        if mode == 'cut':
            kw['lag_cutoffs'] = c.array(list(lcut), 'f')
            m = len(lcut) + 1
        else:
            lcut = None
            kw.update(m=m, fixed=fixed)
        a = c.array(y, 'f')
        cls = decide(c, cut, y)
    before = c.copy(a)
    ndraws = len(c.draws)
    s = c.g.markov.Spatial_Markov(a, w, permutations=perms, **kw)
    draws = [list(d) for d in c.draws[ndraws:]]
    if mode == 'cut':
        lc = decide(c, lcut, lag(c, w, y))
        base_cut = lcut
    elif mode == 'quant':
        if fixed:
            base_cut = [v for v in c.items(c.quantiles(c.array([v for r in lag(c, w, y) for v in r], 'f'), m))[:-1]]
            m = len(base_cut) + 1
        else:
            base_cut = None
        lc = lag_classes(c, w, y, m, base_cut, fixed)
    else:
        lc = cat_lag(c, w, cls)
        c.assume(all(v is not None for r in lc for v in r))
    tot = c.items(s.transitions)
    E = tables(c, cls, lc, k, m)
    T = [[[sum(E[l][i][j] for l in range(m)) for j in range(k)] for i in range(k)]][0]
    c.check_eq('observed overall counts', s.transitions, T)
    c.check_eq('observed conditional counts', s.T, E)
    c.check_eq('observed classes', s.class_ids, cls)
    c.check_eq('observed lag classes', s.lclass_ids, lc)
    c.check('number of lag classes', s.m == m)
    if mode == 'cut':
        c.check_eq('lag cutoffs', s.lag_cutoffs, list(lcut))
        c.check_eq('cutoffs', s.cutoffs, list(cut))
    x2 = c.sum([chi2_stat(c, E[l], T) for l in range(m)])
    c.check('observed statistic', c.eq(s.x2, x2))
    c.check('number of draws', len(draws) == perms)
    sims = []
    for d in draws:
        if mode == 'disc':
            pl = cat_lag(c, w, [cls[i] for i in d])
            c.assume(all(v is not None for r in pl for v in r))
        else:
            pl = lag_classes(c, w, [y[i] for i in d], m, base_cut, fixed)
        Ep = tables(c, cls, pl, k, m)
        sims.append(c.sum([chi2_stat(c, Ep[l], T) for l in range(m)]))
    r = c.items(s.x2_realizations)
    r = [v[0] if isinstance(v, list) else v for v in r]
    c.check('one statistic per permutation', len(r) == perms)
    for v, e in zip(r, sims):
        c.check('permuted statistic', c.eq(v, e))
    big = c.count([c.or_(e > x2, c.eq(e, x2)) for e in sims])
    c.check('pseudo p-value', c.eq(s.x2_rpvalue * (perms + 1), big + 1))
    c.check_eq('data unchanged', a, before)


N = None
TRI = ((1, 2), (0, 2), (0, 1))
PATH3 = ((1,), (0, 2), (1,))
PATH4 = ((1,), (0, 2), (1, 3), (2,))
HARNESSES = [
    dict(name='permutation', fn=permutation,
         quick=[dict(rows=((1, 7, N), (8, N, 3), (2, 6, 4)), graph=PATH3, perms=1, mode='cut'),
                dict(rows=((1, 7, 2), (8, 2, N), (2, 6, 4)), graph=PATH3, perms=2, mode='cut', lcut=(3, 6)),
                dict(rows=((1, 7, 2, 8), (8, 2, N, 1), (2, 6, 4, 9)), graph=PATH3, perms=1, mode='cut', cut=(3, 6)),
                dict(rows=((1, 7, 2), (8, N, 3), (2, 6, 4)), graph=PATH3, perms=1, mode='quant', m=2),
                dict(rows=((1, 7, 2), (8, N, 3), (2, 6, 4)), graph=PATH3, perms=1, mode='quant', m=2, fixed=False),
                dict(rows=((0, 1, N), (1, N, 0), (0, 1, 1)), graph=TRI, perms=1, mode='disc', labels=2),
                dict(rows=((0, 1, N), (1, 0, 0), (2, 1, 1), (0, 2, 1)), graph=((1,), (0,), (3,), (2,)), perms=1, mode='disc', labels=3),
                dict(rows=dict(seed=1, n=4, t=3, hi=9, holes=[(1, 2)]), graph=('path', 4), perms=104, mode='cut', fixed_draws=2),
                dict(rows=dict(seed=2, n=9, t=6, hi=60, holes=[(1, 5)]), graph=('rook', 3, 3), perms=4, mode='cut', cut=(15, 40, 50), lcut=(20, 25, 30, 40), fixed_draws=3),
                dict(rows=dict(seed=2, n=9, t=4, hi=60, holes=[(1, 3)]), graph=('rook', 3, 3), perms=3, mode='quant', cut=(20, 40), m=4, fixed=False, fixed_draws=3)],
         thorough=[dict(rows=((1, 7, N), (8, N, N), (N, 6, 4)), graph=PATH3, perms=2, mode='cut'),
                   dict(rows=((1, 7, N), (8, N, 3), (2, 6, 4)), graph=PATH3, perms=2, mode='cut', lcut=(3, 6)),
                   dict(rows=((1, 7, N), (8, 2, N), (2, 6, 4), (7, N, 1)), graph=PATH4, perms=1, mode='cut', lcut=(3, 6), cut=(2, 5)),
                   dict(rows=((1, N, 2), (8, N, 3), (2, 6, 4)), graph=PATH3, perms=2, mode='quant', m=3),
                   dict(rows=((1, N, 2), (8, N, 3), (2, 6, 4)), graph=PATH3, perms=2, mode='quant', m=2, fixed=False),
                   dict(rows=((0, 1, N), (1, N, 0), (0, N, 1)), graph=TRI, perms=2, mode='disc', labels=2)]),
]
ASSUMPTIONS = 'every draw of numpy.random.permutation is explored; mapclassify and libpysal lags as documented; no categorical lag is decided by a random tie'
OUTSIDE = 'panels other than the listed ones with their free cells; more permutations; in the larger inputs all but a few cells are fixed values'
