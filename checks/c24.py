"""Neighbourhood and regional tau."""
from .common import pairs, vec
from .c21 import series, decide, make
from .c22 import weights, PATH3, PATH4, STAR, SQ5, PATH5, hood
from .c23 import signs


def neighbourhood(c, n, graph=None, kind='f', x=None, y=None, row=False, ids=None):
    w = weights(c, n, graph, ids)
    nb = hood(w)
    if not all(nb):
        c.assume(False)
    if row:
        w.transform = 'r'
    ints = kind != 'f'
    vx, vy = series(c, 'x', n, ints, x), series(c, 'y', n, ints, y)
    S = signs(decide(c, vx), decide(c, vy), n)
    t = c.g.rank.Tau_Local_Neighborhood(make(c, vx, kind), make(c, vy, kind), w)
    want = []
    for i in range(n):
        g = [i] + nb[i]
        ps = [(a, b) for a in g for b in g if a < b]
        want.append((sum(S[a][b] for a, b in ps), len(ps)))
    c.check_eq('neighbourhood tau', t.tau_lnhood, [c.div(a, b) for a, b in want])
    c.check_eq('sign', t.sign, [-1 if a < 0 else 1 for a, b in want])
    c.check_eq('local tau', t.tau_local, [c.div(sum(r), n - 1) for r in S])


def regional(c, regime, kind='f', x=None, y=None, column=False):
    regime = vec(regime)
    n = len(regime)
    ints = kind != 'f'
    vx, vy = series(c, 'x', n, ints, x), series(c, 'y', n, ints, y)
    S = signs(decide(c, vx), decide(c, vy), n)
    t = c.g.rank.Tau_Regional(make(c, vx, kind), make(c, vy, kind), c.np.array([[r] for r in regime] if column else list(regime)))
    ur = sorted(set(regime))
    got = c.items(t.tau_reg)
    c.check('one block per pair of regimes', len(got) == len(ur) and all(len(r) == len(ur) for r in got))
    num = den = 0
    for a in range(len(ur)):
        for b in range(len(ur)):
            ps = [(i, j) for i in range(n) for j in range(n) if i != j and regime[i] == ur[a] and regime[j] == ur[b]]
            s = sum(S[i][j] for i, j in ps)
            if ps:
                c.check('regional tau', c.eq(got[a][b], c.div(s, len(ps))))
                num, den = num + got[a][b] * len(ps), den + len(ps)
                c.check('symmetric', c.eq(got[a][b], got[b][a]))
    c.check('pair-weighted mean', c.eq(num, c.div(den * sum(map(sum, S)), n * (n - 1))))


HARNESSES = [
    dict(name='neighbourhood', fn=neighbourhood,
         quick=[dict(n=3, graph=PATH3), dict(n=3, y=[2, 2, 1]), dict(n=4, graph=STAR, y=[2, 1, 2, 3]), dict(n=4, graph=PATH4, x=[1, 2, 2, None], y=[None, None, 3, 3], kind='list', row=True),
                dict(n=5, graph=SQ5, x=[2, 4, None, None, None], y=[1, 2, 2, 1, 3]),
                dict(n=32, graph=('some', 32, 5), x=dict(seed=1, n=32, hi=9, holes=[11]), y=dict(seed=2, n=32, hi=40)), dict(n=25, graph=('rook', 5, 5), x=dict(seed=3, n=25, hi=90), y=dict(seed=4, n=25, hi=3, holes=[24]), row=True),
                dict(n=16, graph=('rook', 4, 4), x=dict(seed=5, n=16, hi=9, plus=1 << 24, holes=[2]), y=dict(seed=6, n=16, hi=20, plus=1 << 25))]
         + [dict(n=4, graph=PATH4, ids=['d', 'a', 'c', 'b'], x=[None, 2, None, 1]), dict(n=4, graph=((1, 2), (0,), (3,), (0,)), x=[None, 2, 3, 1], y=[2, None, 1, 2]), dict(n=3, ids=[2, 0, 1], x=[1, 3, 2]), dict(n=5, graph=SQ5, ids=[4711, 12, 7, 90, 8], x=[2, 4, None, None, None], y=[1, 2, 2, 1, 3])],
         thorough=[dict(n=3), dict(n=4, y=[2, 1, 2, 3]), dict(n=4, graph=PATH4), dict(n=5, graph=PATH5, x=[1, 2, 2, 3, 1]), dict(n=3, kind='i'), dict(n=144, graph=('rook', 12, 12), x=dict(seed=1, n=144, hi=90, holes=[100]), y=dict(seed=2, n=144, hi=400))]),
    dict(name='regional', fn=regional,
         quick=[dict(regime=[1, 0, 1]), dict(regime=['b', 'a', 'b', 'a'], y=[2, 1, 1, 3]), dict(regime=[3, 7, 3, 5, 7], x=[1, 2, 2, 3, 1], y=[None, 2, None, 2, None]), dict(regime=[0, 0, 0], kind='list', y=[1, 2, None]),
                dict(regime=[1, 2, 2, 1], x=[4, 3, 2, 1], column=False, kind='i', y=[None, None, 1, 2]), dict(regime=dict(seed=3, n=36, hi=11), x=dict(seed=1, n=36, hi=9, holes=[35]), y=dict(seed=2, n=36, hi=40))],
         thorough=[dict(regime=[1, 0, 1, 0]), dict(regime=[2, 0, 1, 0, 2], y=[1, 2, 2, 1, 3]), dict(regime=[1, 0, 1, 0, 1], x=[1, 2, 3, 4, 5])]),
]
OUTSIDE = 'longer series or larger graphs than listed; units without neighbours; the cell of a regime with a single unit (no pair inside); in the larger inputs all but a few cells are fixed values'
