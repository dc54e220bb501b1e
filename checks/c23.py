"""Local and neighbour tau."""
from .common import pairs
from .c21 import series, decide, make
from .c22 import weights, PATH3, PATH4, STAR, SQ5, PATH5, hood


def signs(sx, sy, n):
    return [[0 if i == j else sx[i, j] * sy[i, j] for j in range(n)] for i in range(n)]


def local(c, n, kind='f', x=None, y=None):
    ints = kind != 'f'
    vx, vy = series(c, 'x', n, ints, x), series(c, 'y', n, ints, y)
    S = signs(decide(c, vx), decide(c, vy), n)
    t = c.g.rank.Tau_Local(make(c, vx, kind), make(c, vy, kind))
    want = [c.div(sum(r), n - 1) for r in S]
    c.check_eq('local tau', t.tau_local, want)
    c.check_eq('signs', t.S, S)
    c.check('global tau', c.eq(t.tau, c.div(c.sum(want), n)))


def neighbour(c, n, graph=None, kind='f', x=None, y=None, row=False, ids=None):
    w = weights(c, n, graph, ids)
    nb = hood(w)
    if not all(nb):
        c.assume(False)
    if row:
        w.transform = 'r'
    ints = kind != 'f'
    vx, vy = series(c, 'x', n, ints, x), series(c, 'y', n, ints, y)
    S = signs(decide(c, vx), decide(c, vy), n)
    t = c.g.rank.Tau_Local_Neighbor(make(c, vx, kind), make(c, vy, kind), w)
    sums = [sum(S[i][j] for j in nb[i]) for i in range(n)]
    s0 = sum(len(v) for v in nb)
    c.check_eq('neighbour tau', t.tau_ln, [c.div(sums[i], len(nb[i])) for i in range(n)])
    c.check_eq('weights', t.tau_ln_weights, [c.div(len(nb[i]), s0) for i in range(n)])
    c.check('weighted sum', c.eq(c.sum([t.tau_ln[i] * t.tau_ln_weights[i] for i in range(n)]), c.div(sum(sums), s0)))
    c.check_eq('sign', t.sign, [-1 if v < 0 else 1 for v in sums])


HARNESSES = [
    dict(name='local', fn=local, quick=[dict(n=3), dict(n=2, kind='list'), dict(n=5, x=[2, 1, 2, 3, 1], y=[None, None, None, 1, None]), dict(n=3, kind='i', y=[None, None, 1]), dict(n=40, x=dict(seed=1, n=40, hi=9, holes=[11]), y=dict(seed=2, n=40, hi=40))],
         thorough=[dict(n=4), dict(n=5, x=[1, 2, 2, 3, 1]), dict(n=3, kind='i')]),
    dict(name='neighbour', fn=neighbour,
         quick=[dict(n=3, graph=PATH3), dict(n=3, y=[2, 2, 1]), dict(n=4, graph=STAR, y=[2, 1, 2, 3]), dict(n=4, graph=PATH4, x=[1, 2, 2, None], y=[None, None, 3, 3], kind='list', row=True),
                dict(n=5, graph=SQ5, x=[2, 4, None, None, None], y=[1, 2, 2, 1, 3]),
                dict(n=32, graph=('some', 32, 5), x=dict(seed=1, n=32, hi=9, holes=[11]), y=dict(seed=2, n=32, hi=40)), dict(n=25, graph=('rook', 5, 5), x=dict(seed=3, n=25, hi=90), y=dict(seed=4, n=25, hi=3, holes=[24]), row=True),
                dict(n=16, graph=('rook', 4, 4), x=dict(seed=5, n=16, hi=9, plus=1 << 24, holes=[2]), y=dict(seed=6, n=16, hi=20, plus=1 << 25))]
         + [dict(n=4, graph=PATH4, ids=['d', 'a', 'c', 'b'], x=[None, 2, None, 1]), dict(n=4, graph=((1, 2), (0,), (3,), (0,)), x=[None, 2, 3, 1], y=[2, None, 1, 2]), dict(n=3, ids=[2, 0, 1], x=[1, 3, 2]), dict(n=5, graph=SQ5, ids=[4711, 12, 7, 90, 8], x=[2, 4, None, None, None], y=[1, 2, 2, 1, 3])],
         thorough=[dict(n=3), dict(n=4, y=[2, 1, 2, 3]), dict(n=4, graph=PATH4), dict(n=5, graph=PATH5, x=[1, 2, 2, 3, 1]), dict(n=3, kind='i'), dict(n=144, graph=('rook', 12, 12), x=dict(seed=1, n=144, hi=90, holes=[100]), y=dict(seed=2, n=144, hi=400))]),
]
OUTSIDE = 'longer series or larger graphs than listed; units without neighbours; in the larger inputs all but a few cells are fixed values'
