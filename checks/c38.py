"""Results depend on the data alone: not on what was asked for before, nor on earlier analyses."""
from .common import stochastic
from .c22 import weights, PATH3

PAIR = ((1,), (0,))
MARKOV = ['mfpt', 'steady_state', 'sojourn_time', 'p', 'transitions', 'classes']
SPATIAL = ['s', 'S', 'f', 'F', 'ht', 'Q', 'Q_p_value', 'LR', 'LR_p_value', 'dof_hom', 'shtest', 'chi2', 'x2', 'x2_pvalue', 'x2_dof', 'T', 'P', 'p', 'transitions', 'class_ids', 'lclass_ids', 'summary']
RESULT = ['Q', 'Q_p_value', 'LR', 'LR_p_value', 'dof', 'k', 'm', 't_total', 'p_h0', 'Q_table', 'LR_table']
KINDS = dict(markov=MARKOV, full=MARKOV, geo=MARKOV, lisa=MARKOV + ['move_types', 'significant_moves', 'chi_2', 'expected_t', 'spillover'], homogeneity=RESULT + ['summary'], spatial=SPATIAL)


def flat(c, v):
    """all numbers and words of a result, in order"""
    if v is None or isinstance(v, (str, bool)):
        return [v]
    if isinstance(v, dict):
        return [q for k in sorted(v) for q in [k] + flat(c, v[k])]
    if isinstance(v, (set, frozenset)):
        return sorted(v)
    if hasattr(v, 'dof') and hasattr(v, 'LR'):
        return [q for n in RESULT for q in flat(c, getattr(v, n))]
    if isinstance(v, (list, tuple)):
        return [q for x in v for q in flat(c, x)]
    if len(c.shape(v)):
        return [q for x in c.items(v) for q in flat(c, x)]
    return [v]


def ask(c, o, what):
    """value or kind of failure"""
    def f():
        if what == 'summary':
            t = c.said(lambda: o.summary())
            num = [ch for ch in t if 0xE000 <= ord(ch) < 0xF8FF]
            return [''.join('#' if ch in num else ch for ch in t)] + [c.spoken(ch)[0] for ch in num]
        if what == 'spillover':
            return o.spillover()
        return getattr(o, what)
    e, v = c.raises(f)
    return ['refused', type(e).__name__] if e is not None else flat(c, v)


def same(c, label, a, b):
    c.check(label + ' (extent)', len(a) == len(b))
    for x, y in zip(a, b):
        c.check(label, c.eq(x, y))


def make(c, kind, free, fill=False, tag=''):
    M = c.g.markov
    cells = iter(range(free))

    def cell(v, hi):
        i = next(cells, None)
        return v if i is None else c.fd(f'{tag}y{i}', 0, hi)
    if kind == 'markov':
        y = [[cell(v, 2) for v in r] for r in ([0, 1, 2], [1, 0, 1], [2, 2, 0])]
        return lambda: M.Markov(c.array(y), classes=c.array([0, 1, 2]), fill_empty_classes=fill, summary=False)
    if kind in ('full', 'geo'):
        y = [[cell(v, 3) for v in r] for r in ([0, 1, 3], [1, 0, 2], [2, 2, 1])]
        return lambda: {'full': M.FullRank_Markov, 'geo': M.GeoRank_Markov}[kind](c.array(y, 'f'), fill_empty_classes=fill, summary=False)
    if kind == 'homogeneity':
        T = [[[cell(v, 2) for v in r] for r in m] for m in ([[1, 2], [0, 2]], [[2, 1], [1, 3]])]
        return lambda: M.homogeneity(c.array(T, 'f'))
    w = weights(c, 3, PATH3)
    w.transform = 'r'
    if kind == 'spatial':
        y = [[cell(v, 2) for v in r] for r in ([0, 2, 1, 1], [1, 0, 2, 0], [2, 2, 0, 2])]
        return lambda: M.Spatial_Markov(c.array(y, 'f'), w, cutoffs=c.array([1], 'f'), lag_cutoffs=c.array([1], 'f'), fill_empty_classes=fill)
    c.moran_mode = 'exact'
    y = [[cell(v, 3) for v in r] for r in ([0, 1, 3], [1, 0, 2], [2, 2, 1])]
    return lambda: M.LISA_Markov(c.array(y, 'f'), w, permutations=0)


def order(c, kind, free, steps, fill=False):
    """any history of requests, then every result; against results of fresh objects asked for nothing else"""
    c.plain_eig = True      # one and the same eigenvector for one and the same matrix
    build = make(c, kind, free, fill)
    names = KINDS[kind]
    o = build()
    for s in range(steps):
        ask(c, o, names[int(c.fd(f'request{s}', 0, len(names) - 1))])
    for nm in names:
        same(c, nm, ask(c, o, nm), ask(c, build(), nm))


def shared(c):
    """one weights object for all analyses of a harness"""
    if not hasattr(c, 'one_w'):
        c.one_w = weights(c, 3, PATH3)
    return c.one_w


def tags(c, what, t):
    """a computation on data of its own; t names the data"""
    g = c.g
    if what in KINDS:
        f = make(c, what, 2, tag=t)
        return lambda: [ask(c, f(), nm) for nm in KINDS[what]]
    if what == 'turned':
        # two matrices of one size with the same diagonal but for the first row
        P = stochastic(c, 2, name=t, pos=True)[:1] + [[3, 4, 3], [2, 3, 5]] if t == 'a' else stochastic(c, 2, name=t, pos=True)[:1] + [[1, 4, 5], [3, 2, 5]]
        P = [[P[0][0] / 2, P[0][1] / 2, c.div(1, 2)]] + [[c.div(v, 10) for v in r] for r in P[1:]]

        def f():
            a = c.array(P, 'f')
            return [flat(c, v) for v in (g.ergodic.mfpt(a), g.ergodic.var_mfpt_ergodic(a), g.markov.sojourn_time(a, summary=False), g.markov.prais(a))]
        return f
    if what == 'matrix':
        P = stochastic(c, 2, name=t, pos=True)

        def f():
            a = c.array(P, 'f')
            return [flat(c, v) for v in (g.ergodic.steady_state(a), g.ergodic.mfpt(a), g.ergodic.var_mfpt_ergodic(a), g.markov.sojourn_time(a, summary=False), g.markov.prais(a))]
        return f
    if what == 'mobility':
        P = stochastic(c, 2, name=t, pos=True)
        return lambda: [flat(c, g.mobility.markov_mobility(c.array(P, 'f'), measure=m)) for m in ('P', 'D', 'B1', 'B2')]
    if what == 'tables':
        T = [[[int(c.fd(f'{t}{i}{j}', 1, 3)) if q == i == j else 1 + j for j in range(2)] for i in range(2)] for q in range(2)]
        return lambda: [flat(c, g.markov.chi2(c.array(T[0], 'f'), c.array(T[1], 'f'))), flat(c, g.markov.kullback(c.array(T, 'f')))]
    if what == 'sequence':
        y = [[c.fd(f'{t}y{j}', 0, 2) if t == 'a' or j < 1 else j for j in range(3)], [0, 2, 1], [1, 1, 0]]
        return lambda: [flat(c, g.sequence.Sequence(c.array(y), dist_type=d).seq_dis_mat) for d in ('hamming', 'markov', 'interval', 'arbitrary')]
    if what == 'edit':
        y = [[c.fd(f'{t}y{j}', 0, 2) for j in range(2)], [2, 1]]
        S = [[0, c.real(t + 'c', 0, 4), 2], [c.real(t + 'c', 0, 4), 0, 1], [2, 1, 0]]
        d = c.real(t + 'd', 0, 4)
        return lambda: [flat(c, g.sequence.Sequence(c.array(y), subs_mat=c.array(S, 'f'), indel=d).seq_dis_mat)]
    if what == 'rank':
        x, y = ([c.real(f'{t}{q}{i}', 0, 9) if i == 0 and (t, q) != ('b', 'y') else (4 * i + 3) % 7 for i in range(3)] for q in 'xy')
        if t == 'b':
            x[1:] = x[:0:-1]
            y[0] = c.div(7, 2)
        w = shared(c)

        def f():
            a, b = c.array(x, 'f'), c.array(y, 'f')
            R = g.rank
            e, v = c.raises(lambda: flat(c, R.Tau(a, b).tau), ZeroDivisionError)
            return [[str(e)] if e else v, flat(c, R.Tau_Local(a, b).tau_local), flat(c, R.SpatialTau(a, b, w).tau_spatial) if not e else [],
                    flat(c, R.Theta(c.array([[p, q] for p, q in zip(x, y)], 'f'), c.array([0, 0, 1]), permutations=0).theta)]
        return f
    if what == 'rose':
        y = [[c.real(f'{t}{i}', -9, 9), i * i if t == 'a' else (i + 1) % 3] for i in range(3)]
        w = shared(c)

        def f():
            r = g.directional.Rose(c.array(y, 'f'), w, k=4)
            return [flat(c, v) for v in (r.counts, r.r, r.dx if hasattr(r, 'dx') else r.lag, r.cuts)]
        return f
    if what == 'util':
        P = [[c.real(f'{t}{i}{j}', 0, 1) for j in range(2)] for i in range(2)]
        def f():
            a = c.array(P, 'f')
            return [flat(c, g.util.get_lower(a)), flat(c, g.util.fill_empty_diagonals(a))]
        return f


def apart(c, what):
    """the same analysis before and after one of other data"""
    c.plain_eig = True
    f, g = tags(c, what, 'a'), tags(c, what, 'b')
    first = f()
    g()
    again = f()
    for i, (x, y) in enumerate(zip(first, again)):
        same(c, f'{what} result {i}', x, y)


def after(c, what):
    """the same analysis after one of other data and before anything else"""
    c.plain_eig = True
    tags(c, what, 'a')()
    second = tags(c, what, 'b')()
    c.renew()
    alone = tags(c, what, 'b')()
    for i, (x, y) in enumerate(zip(second, alone)):
        same(c, f'{what} result {i}', x, y)


def renamed(c, k):
    """deprecated names give the results of their replacements"""
    E = c.g.ergodic
    c.plain_eig = True
    P = stochastic(c, k, pos=True)
    if k > 2:
        P[1:] = [[c.div(1 + (i * j) % 3, 1 + sum(1 + (i * q) % 3 for q in range(1, k))) if j else c.div(1, 1 + sum(1 + (i * q) % 3 for q in range(1, k))) for j in range(k)] for i in range(1, k)]
    a = c.array(P, 'f')
    for old, new in (('fmpt', 'mfpt'), ('_fmpt_ergodic', '_mfpt_ergodic'), ('var_fmpt_ergodic', 'var_mfpt_ergodic')):
        if hasattr(E, old) and hasattr(E, new):
            c.check_eq(old, getattr(E, old)(a), getattr(E, new)(a))


def emptied(c, fill):
    E = c.g.ergodic
    P = stochastic(c, 2, empty=True)
    a = c.array(P, 'f')
    same(c, 'fmpt', *[(lambda e, v: [type(e).__name__] if e else flat(c, v))(*c.raises(lambda: f(a, fill_empty_classes=fill))) for f in (E.fmpt, E.mfpt)])


SINGLE = [k for k in KINDS]
APART = SINGLE + ['matrix', 'mobility', 'tables', 'sequence', 'edit', 'rank', 'rose', 'util']
HARNESSES = [
    dict(name='order', fn=order, quick=[dict(kind=k, free=1, steps=1) for k in SINGLE if k != 'spatial'] + [dict(kind='spatial', free=0, steps=1, fill=f) for f in (False, True)] + [dict(kind=k, free=0, steps=2) for k in SINGLE if k != 'spatial'],
         thorough=[dict(kind=k, free=2, steps=2) for k in ('markov', 'full', 'geo', 'homogeneity')] + [dict(kind='lisa', free=1, steps=2), dict(kind='markov', free=1, steps=3, fill=True), dict(kind='spatial', free=1, steps=1), dict(kind='spatial', free=1, steps=1, fill=True), dict(kind='spatial', free=0, steps=2)]),
    dict(name='apart', fn=apart, quick=[dict(what=w) for w in APART], thorough=[dict(what=w) for w in APART]),
    dict(name='after', fn=after, quick=[dict(what=w) for w in APART + ['turned']], thorough=[dict(what=w) for w in APART + ['turned']]),
    dict(name='renamed', fn=renamed, quick=[dict(k=2)], thorough=[dict(k=3)]),
    dict(name='emptied', fn=emptied, quick=[dict(fill=False), dict(fill=True)], thorough=[dict(fill=True)]),
]
OUTSIDE = 'histories of more than two requests; analyses sharing one weights object, whose transformation some of them set; data beyond the free cells of the small panels'
