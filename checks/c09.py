"""Spatially conditioned transition counts."""
from .spatial import setup, tables


def partition(c, n, t, mode, k=2, m=2, fill=False, graph=None, wide=None):
    s, y, w, _, _ = setup(c, n, t, mode, k, m, fill=fill, graph=graph, wide=wide)
    k, m = int(s.k), int(s.m)
    T = c.items(s.T)
    c.check('shape of the conditional counts', c.shape(s.T) == (m, k, k) and c.shape(s.P) == (m, k, k))
    c.check('shape of the overall counts', c.shape(s.transitions) == (k, k))
    if c.shape(s.transitions) != (k, k) or c.shape(s.T) != (m, k, k):
        return
    grid = [[[int(c.value(v)) for v in r] for r in c.items(a)] for a in (s.class_ids, s.lclass_ids)]
    E = tables(c, grid[0], grid[1], k, m)
    c.check_eq('every transition is counted under its lag class', T, E)
    tot = c.items(s.transitions)
    P = c.items(s.P)
    for i in range(k):
        for j in range(k):
            c.check('conditional counts add up to the overall ones', c.eq(c.sum([T[l][i][j] for l in range(m)]), tot[i][j]))
    c.check('every observation is counted once', c.eq(c.sum([v for r in tot for v in r]), n * (t - 1)))
    for l in range(m):
        for i in range(k):
            rs = sum(int(v) for v in E[l][i])
            for j in range(k):
                if rs:
                    c.check('conditional probability', c.eq(P[l][i][j], c.div(E[l][i][j], rs)))
                else:
                    c.check('row without observations', c.eq(P[l][i][j], 1 if fill and i == j else 0))


HARNESSES = [
    dict(name='partition', fn=partition,
         quick=[dict(n=3, t=2, mode='disc', k=2, fill=f) for f in (False, True)] + [dict(n=2, t=3, mode='disc', k=3)]
         + [dict(n=3, t=2, mode='cut', k=2, m=2, graph=((1,), (0, 2), (1,))), dict(n=2, t=2, mode='cut', k=2, m=3, graph=((1,), (0,))), dict(n=2, t=2, mode='cut', k=3, m=2, fill=True), dict(n=2, t=3, mode='cut', k=2, m=2)]
         + [dict(n=2, t=2, mode='quant', k=2, m=2, graph=((1,), (0,)))]
         + [dict(n=16, t=8, mode='cut', graph=('rook', 4, 4), wide=dict(seed=1, hi=90, holes=[(6, 7)], cut=[10, 30, 55, 80], lcut=[30, 50, 60])), dict(n=12, t=10, mode='disc', fill=True, graph=('some', 12, 3), wide=dict(seed=2, hi=0, lo=-1, holes=[(3, 9)])),
            dict(n=6, t=4, mode='cut', graph=('ring', 6, 1), wide=dict(seed=3, hi=13, holes=[(0, 3)], cut=list(range(12)), lcut=[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])), dict(n=6, t=3, mode='quant', k=4, m=3, graph=('rook', 2, 3), wide=dict(seed=4, hi=60, holes=[(4, 1)]))],
         thorough=[dict(n=3, t=2, mode='cut', k=2, m=3), dict(n=3, t=3, mode='disc', k=2), dict(n=4, t=2, mode='disc', k=2, fill=True), dict(n=3, t=2, mode='disc', k=3),
                   dict(n=3, t=2, mode='cut', k=3, m=3, fill=True), dict(n=3, t=3, mode='cut', k=2, m=2), dict(n=4, t=2, mode='cut', k=2, m=3)]),
]
OUTSIDE = 'more units, periods or classes than listed; in the larger inputs all but a few cells are fixed values'
