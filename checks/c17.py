"""Independence of own values and lags in LISA transitions."""
from .c16 import weights
from .spatial import panel, lag
from .common import pairs, table

HL = {False: {1: (0, 0), 2: (1, 0), 3: (1, 1), 4: (0, 1)}, True: {1: (0, 0), 2: (1, 1), 3: (1, 0), 4: (0, 1)}}   # (own, lag), 1 = low


def chain(rows):
    """2-state chain of low/high sequences; a state never left stays put"""
    N = [[0, 0], [0, 0]]
    for r in rows:
        for a, b in zip(r, r[1:]):
            N[a][b] += 1
    return [[(N[a][b], sum(N[a])) if sum(N[a]) else (int(a == b), 1) for b in (0, 1)] for a in (0, 1)]


def low(c, v, ref, ties):
    if not ties:
        # rounding decides ties
        c.assume(c.not_(v == ref))
    return int(c.fork(v < ref))


def chains(c, y, L, ties):
    """own and lag chains: by period average over time (right), and as the package defines them (each unit against its own
    average over time, transitions from unit to unit)"""
    n, t = len(y), len(y[0])
    mean = [c.div(c.sum([y[i][s] for i in range(n)]), n) for s in range(t)]
    right = tuple(chain([[low(c, M[i][s], mean[s], ties) for s in range(t)] for i in range(n)]) for M in (y, L))
    own = [c.div(c.sum(y[i]), t) for i in range(n)]
    pinned = tuple(chain([[low(c, M[i][s], own[i], ties) for i in range(n)] for s in range(t)]) for M in (y, L))
    return right, pinned


def expected(c, N, ch, geoda):
    out = []
    for a in range(1, 5):
        tot = c.sum(N[a - 1])
        row = []
        for b in range(1, 5):
            f = [ch[d][HL[geoda][a][d]][HL[geoda][b][d]] for d in (0, 1)]
            row.append(c.div(tot * (f[0][0] * f[1][0]), f[0][1] * f[1][1]))
        out.append(row)
    return out


def same(c, A, B):
    return c.all_([c.eq(x, y) for r, s in zip(A, B) for x, y in zip(r, s)])


def analyse(c, rows, geoda, exact=True, whole=False):
    rows = table(rows)
    n = len(rows)
    # whole numbers, with two or four units and periods, make every average exact: ties count
    y = [[c.num(v) if v is not None else c.num(c.value(c.fd(f'y_{i}_{s}', -1, 3))) for s, v in enumerate(r)] for i, r in enumerate(rows)] if whole else panel(c, rows, -99, 99)
    w = weights(c, n)
    if exact:
        c.moran_mode = 'exact'
    else:
        for s in range(len(rows[0])):
            for i in range(n):
                if (i, s) in ((0, 0), (0, 1), (1, 0)):
                    c.value(c.fd(f'moran_q{s}_{i}', 1, 4))
                else:
                    v = (i + 2 * s) % 4 + 1
                    c.fd(f'moran_q{s}_{i}', v, v)
    w.transform = 'r'
    L = lag(c, w, y)
    ch = chains(c, y, L, whole or not any(v is None for r in rows for v in r))
    m = c.g.markov.LISA_Markov(c.array(y, 'f'), w, geoda_quads=geoda)
    return y, w, ch, m


def independence(c, rows, geoda, exact=True, whole=False):
    y, w, (right, pinned), m = analyse(c, rows, geoda, exact, whole)
    N = c.items(m.transitions)
    E = c.items(m.expected_t)
    for a in range(4):
        c.check('row totals', c.eq(c.sum(E[a]), c.sum(N[a])))
    ok = [expected(c, N, ch, geoda) for ch in (right, pinned)]
    c.check('expected transitions', c.or_(same(c, E, ok[0]), same(c, E, ok[1])))
    stat, p, dof = c.g.markov.chi2(m.transitions, m.expected_t)
    c.check('test of the observed against the expected', c.and_(c.eq(m.chi_2[0], stat), c.eq(m.chi_2[1], p), c.eq(m.chi_2[2], dof)))


def over_time(c, rows, geoda):
    """own and lag chains describe moves of the units over time"""
    y, w, (right, pinned), m = analyse(c, rows, geoda)
    N, E = c.items(m.transitions), c.items(m.expected_t)
    good, unit = (same(c, E, expected(c, N, ch, geoda)) for ch in (right, pinned))
    c.check('expected transitions', c.or_(good, unit))
    c.check('chains run over time', c.or_(good, c.not_(unit)))


def schemes(c, rows):
    """changing the numbering of the quadrants only relabels the results"""
    y = panel(c, rows, -99, 99)
    n, t = len(y), len(y[0])
    c.moran_mode = 'exact'
    w = weights(c, n)
    w.transform = 'r'
    chains(c, y, lag(c, w, y), not any(v is None for r in rows for v in r))
    ms = [c.g.markov.LISA_Markov(c.array(y, 'f'), w, geoda_quads=g) for g in (False, True)]
    to = {1: 1, 2: 3, 3: 2, 4: 4}
    qa, qb = c.items(ms[0].q), c.items(ms[1].q)
    for i in range(n):
        for s in range(t):
            c.check('quadrants', c.any_([c.and_(qa[i][s] == a, qb[i][s] == to[a]) for a in to]))
    Ea, Eb = c.items(ms[0].expected_t), c.items(ms[1].expected_t)
    Na, Nb = c.items(ms[0].transitions), c.items(ms[1].transitions)
    for a in to:
        for b in to:
            c.check('transitions', c.eq(Na[a - 1][b - 1], Nb[to[a] - 1][to[b] - 1]))
            c.check('expected transitions', c.eq(Ea[a - 1][b - 1], Eb[to[a] - 1][to[b] - 1]))
    for q in range(3):
        c.check('test', c.eq(ms[0].chi_2[q], ms[1].chi_2[q]))


A = [[31, None, 12], [52, 23, 71], [13, 84, 20]]
B = [[-31, 22, 13], [None, 34, -65], [46, -77, -28]]
UP = [[1, 2, 3], [1, 2, 3], [1, 2, 3]]
D = [[21, 42, 47], [21, 53, 84], [22, 65, None], [23, 14, 15]]
U = [[1, 2, 4], [1, 2, 5], [1, 2, 7]]
HARNESSES = [
    dict(name='independence', fn=independence,
         quick=[dict(rows=A, geoda=False), dict(rows=A, geoda=True), dict(rows=B, geoda=False), dict(rows=UP, geoda=False), dict(rows=U, geoda=True), dict(rows=D, geoda=True),
                dict(rows=[[2, 4], [1, 7], [5, 3]], geoda=False, exact=False),
                dict(rows=[[1, None], [None, 2], [2, 0], [1, 3]], geoda=False, whole=True), dict(rows=[[1, 2, 0, 1], [None, 2, 1, 2], [2, 0, None, 3], [1, 3, 2, 1]], geoda=True, whole=True),
                dict(rows=dict(seed=1, n=16, t=8, hi=40, holes=[(3, 5)]), geoda=False, whole=True), dict(rows=dict(seed=2, n=9, t=13, hi=90, lo=-90, holes=[(8, 0)]), geoda=True)],
         thorough=[dict(rows=r, geoda=g) for r in (A, B, D, UP, U, [[31, None, 12], [52, 23, None], [13, 74, 20]], [[None, 31, 12, 43], [54, 25, 66, 17], [18, 79, None, 27]]) for g in (False, True)]
         + [dict(rows=[[2, 4], [1, 7], [5, 3]], geoda=True, exact=False), dict(rows=[[2, 4, 1], [1, 7, 3], [5, 3, 6]], geoda=False, exact=False)]
         + [dict(rows=r, geoda=g, whole=True) for r in ([[1, None], [None, 2], [2, None], [1, 3]], [[1, 2, 0, 1], [None, 2, 1, None], [2, 0, None, 3], [1, 3, 2, 1]]) for g in (False, True)]),
    dict(name='over_time', fn=over_time, quick=[dict(rows=A, geoda=False)], thorough=[dict(rows=A, geoda=True)]),
    dict(name='schemes', fn=schemes, quick=[dict(rows=A), dict(rows=D)], thorough=[dict(rows=A), dict(rows=B), dict(rows=D), dict(rows=[[31, None, 12], [52, 23, None], [13, 74, 20]])]),
]
ASSUMPTIONS = 'quadrants computed from data and lag (esda), or arbitrary'
OUTSIDE = 'panels with more free values, units or periods than listed; in the larger inputs all but a few cells are fixed values'
