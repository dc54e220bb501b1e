"""Spatial tau."""
from .common import pairs, neighbours, hood
from .c21 import series, decide, counts, make


def weights(c, n, graph, ids=None):
    if graph is None:
        return c.graph(n, ids=ids)
    if ids is None:
        return c.W({i: list(v) for i, v in enumerate(neighbours(graph))})
    return c.W({ids[i]: [ids[j] for j in v] for i, v in enumerate(neighbours(graph))}, list(ids))




def spatial(c, n, graph=None, kind='f', x=None, y=None, row=False, ids=None):
    w = weights(c, n, graph, ids)
    nb = hood(w)
    if row:
        w.transform = 'r'
    ints = kind != 'f'
    vx, vy = series(c, 'x', n, ints, x), series(c, 'y', n, ints, y)
    sx, sy = decide(c, vx), decide(c, vy)
    joins = [(i, j) for i, j in pairs(n) if j in nb[i]]
    con, dis, ux, uy = counts(sx, sy, joins)
    if not ux or not uy:
        # nothing to normalise by
        c.assume(False)
    a, b = make(c, vx, kind), make(c, vy, kind)
    t = c.g.rank.SpatialTau(a, b, w)
    c.check('concordant neighbour pairs', c.eq(t.concordant_spatial, con))
    c.check('discordant neighbour pairs', c.eq(t.discordant_spatial, dis))
    c.check('neighbour pairs', c.eq(t.pairs_spatial, len(joins)))
    c.check('spatial tau', c.eq(t.tau_spatial, c.div(con - dis, c.sqrt(c.num(ux)) * c.sqrt(c.num(uy)))))
    con, dis, ux, uy = counts(sx, sy, pairs(n))
    c.check('tau of all pairs', c.eq(t.tau, c.div(con - dis, c.sqrt(c.num(ux)) * c.sqrt(c.num(uy)))))
    c.check('counts of all pairs', c.and_(c.eq(t.concordant, con), c.eq(t.discordant, dis), c.eq(t.extraX, ux - con - dis), c.eq(t.extraY, uy - con - dis)))


PATH3 = ((1,), (0, 2), (1,))
PATH4 = ((1,), (0, 2), (1, 3), (2,))
STAR = ((1, 2, 3), (0,), (0,), (0,))
PATH5 = ((1,), (0, 2), (1, 3), (2, 4), (3,))
SQ5 = ((1, 2), (0, 3), (0, 3, 4), (1, 2), (2,))
HARNESSES = [
    dict(name='spatial', fn=spatial,
         quick=[dict(n=3, graph=PATH3), dict(n=3, y=[2, 2, 1]), dict(n=4, graph=STAR, y=[2, 1, 2, 3]), dict(n=4, graph=PATH4, x=[1, 2, 2, None], y=[None, None, None, 3], kind='i', row=True),
                dict(n=5, graph=SQ5, x=[2, 4, None, None, None], y=[1, 2, 2, 1, 3]),
                dict(n=32, graph=('some', 32, 5), x=dict(seed=1, n=32, hi=9, holes=[11]), y=dict(seed=2, n=32, hi=40)), dict(n=25, graph=('rook', 5, 5), x=dict(seed=3, n=25, hi=90), y=dict(seed=4, n=25, hi=3, holes=[24]), row=True),
                dict(n=16, graph=('rook', 4, 4), x=dict(seed=5, n=16, hi=9, plus=1 << 24, holes=[2]), y=dict(seed=6, n=16, hi=20, plus=1 << 25))]
         + [dict(n=4, graph=PATH4, ids=['d', 'a', 'c', 'b'], x=[None, 2, None, 1]), dict(n=3, ids=[2, 0, 1], x=[1, 3, 2]), dict(n=5, graph=SQ5, ids=[4711, 12, 7, 90, 8], x=[2, 4, None, None, None], y=[1, 2, 2, 1, 3])],
         thorough=[dict(n=3), dict(n=4, y=[2, 1, 2, 3]), dict(n=4, graph=PATH4), dict(n=5, graph=PATH5, x=[1, 2, 2, 3, 1]), dict(n=3, kind='i'), dict(n=144, graph=('rook', 12, 12), x=dict(seed=1, n=144, hi=90, holes=[100]), y=dict(seed=2, n=144, hi=400))]),
]
OUTSIDE = 'longer series or larger graphs than listed; weights that are not symmetric; in the larger inputs all but a few cells are fixed values'
