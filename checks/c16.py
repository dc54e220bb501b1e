"""Types of LISA transitions."""
from .common import ints, table, hood

PATH3 = ((1,), (0, 2), (1,))


def data(c, n, t):
    """a panel with both high and low values and lags in every period"""
    return [[c.num((7 * i + 3 * s * (1 - 2 * (i % 2)) + 2 * (i * s % 3)) % 11 + 1) for s in range(t)] for i in range(n)]


def weights(c, n, graph=None, ids=None):
    g = graph or [[j for j in (i - 1, i + 1) if 0 <= j < n] for i in range(n)]
    ids = ids or list(range(n))
    return c.W({ids[i]: [ids[j] for j in v] for i, v in enumerate(g)}, ids)


def moves(c, n, t, perms, geoda=False, alpha=True, free=None, pz=None):
    """free: the (unit, period) pairs with an arbitrary quadrant (all of them by default)"""
    for i in range(n):
        for s in range(t):
            v = (2 * i + 3 * s + i * s) % 4 + 1
            if free is not None and (i, s) not in [tuple(f) for f in free]:
                c.fd(f'moran_q{s}_{i}', v, v)
            else:
                c.value(c.fd(f'moran_q{s}_{i}', 1, 4))
    if pz is not None:
        # mostly fixed p-values, in hundredths
        c.fixed_pz = table(dict(seed=pz, n=t, t=n, hi=11, holes=[(s, i) for i, s in free]))
    y = data(c, n, t)
    w = weights(c, n)
    kw = dict(permutations=perms, geoda_quads=geoda)
    a = c.num(5) / 100
    if alpha:
        a = c.real('alpha', 0, 1)
        kw['significance_level'] = a
    m = c.g.markov.LISA_Markov(c.array(y, 'f'), w, **kw)
    calls = list(c.moran_calls)
    c.check('one local Moran analysis per period', len(calls) == t)
    for s, r in enumerate(calls):
        c.check_eq('data of the period', r.y, [y[i][s] for i in range(n)])
        c.check('scheme', bool(r.geoda_quads) == geoda)
        c.check('permutations', int(r.permutations) == perms)
    q = [[calls[s].q[i] for s in range(t)] for i in range(n)]
    c.check_eq('quadrants', m.q, q)
    c.check_eq('move types', m.move_types, [[4 * (q[i][s] - 1) + q[i][s + 1] for s in range(t - 1)] for i in range(n)])
    c.check_eq('classes', m.classes, [1, 2, 3, 4])
    c.check_eq('transitions', m.transitions, [[c.count([c.and_(q[i][s] == a_, q[i][s + 1] == b) for i in range(n) for s in range(t - 1)])
                                               for b in range(1, 5)] for a_ in range(1, 5)])
    c.check('level', c.eq(m.significance_level, a))
    if perms:
        p = [[calls[s].p_z_sim[i] for s in range(t)] for i in range(n)]
        c.check_eq('p-values', m.p_values, p)
        sig = [[v <= a for v in r] for r in p]
        want = [[4 * (q[i][s] - 1) + q[i][s + 1] + 16 * c.ind(c.not_(sig[i][s + 1])) + 32 * c.ind(c.not_(sig[i][s]))
                 for s in range(t - 1)] for i in range(n)]
        c.check_eq('significant moves', m.significant_moves, want)


def quadrants(c, n, t, geoda, period=0, free=None, ids=None):
    """quadrants computed from the data: own value and spatial lag against the period's mean"""
    c.moran_mode = 'exact'
    y = data(c, n, t)
    for i in range(n) if free is None else free:
        y[i][period] = c.real(f'y_{i}', 1, 9)
    w = weights(c, n, ids=ids)
    nbs = hood(w)
    m = c.g.markov.LISA_Markov(c.array(y, 'f'), w, geoda_quads=geoda)
    hh, ll, lh, hl = (1, 2, 3, 4) if geoda else (1, 3, 2, 4)
    for s in range(t):
        mean = c.div(c.sum([y[i][s] for i in range(n)]), n)
        for i in range(n):
            nb = nbs[i]
            lag = c.div(c.sum([y[j][s] for j in nb]), len(nb))
            hi, lhi = y[i][s] > mean, lag > mean
            c.check('quadrant', c.eq(m.q[i, s], c.ite(hi, c.ite(lhi, hh, hl), c.ite(lhi, lh, ll))))


HARNESSES = [
    dict(name='moves', fn=moves,
         quick=[dict(n=2, t=2, perms=99, free=[(0, 0), (0, 1)]), dict(n=1, t=2, perms=99, geoda=True), dict(n=3, t=3, perms=0, free=[(1, 0), (1, 1), (2, 1), (2, 2)]),
                dict(n=2, t=3, perms=9, alpha=False, free=[(0, 1), (1, 2)]), dict(n=5, t=14, perms=9, free=[(3, 13), (4, 0)], alpha=False, pz=1), dict(n=40, t=3, perms=0, free=[(39, 2), (0, 0)], geoda=True)],
         thorough=[dict(n=2, t=2, perms=99), dict(n=1, t=3, perms=9, geoda=True), dict(n=3, t=2, perms=0)]),
    dict(name='quadrants', fn=quadrants, quick=[dict(n=3, t=2, geoda=g, period=int(g)) for g in (False, True)] + [dict(n=20, t=3, geoda=False, period=2, free=[7]), dict(n=4, t=2, geoda=False, ids=['d', 'a', 'c', 'b'], free=[0, 2])],
         thorough=[dict(n=4, t=2, geoda=g, period=1 - int(g)) for g in (False, True)] + [dict(n=3, t=3, geoda=False, period=1)]),
]
ASSUMPTIONS = 'the local Moran analysis itself is esda\'s: quadrants and p-values are arbitrary (moves) or computed from data and lag (quadrants)'
OUTSIDE = 'more units or periods than listed; in the larger inputs all but a few cells are fixed values'
