"""Rose sectors."""
from .c22 import weights, PATH3, PATH4, STAR
from .common import table, hood


def lagged(c, w, cols, i):
    """weighted sum over the neighbours of unit i, per period"""
    nb = hood(w)[i]
    f = c.div(1, len(nb)) if w.transform == 'R' and nb else 1
    return [c.sum([cols[j][t] for j in nb]) * f for t in range(len(cols[0]))]


def octant(c, x, y):
    """exact octant (0..7) of a direction, and the sector index its lower edge opens"""
    return [c.or_(c.and_(y >= 0, x > y), c.and_(c.eq(x, 0), c.eq(y, 0))), c.and_(x > 0, y >= x), c.and_(x <= 0, y > -x), c.and_(y > 0, -x >= y),
            c.and_(y <= 0, x < y), c.and_(x < 0, y <= x), c.and_(x >= 0, -y > x), c.and_(y < 0, x >= -y)]


def panel(c, n, t, rows, w):
    """symbolic panel with the movements of values and lags"""
    rows = table(rows)
    y = [[c.real(f'y{i}_{s}', -99, 99) if rows is None or rows[i][s] is None else c.num(rows[i][s]) for s in range(t)] for i in range(n)]
    L = [lagged(c, w, y, i) for i in range(n)]
    return y, L, [r[-1] - r[0] for r in y], [r[-1] - r[0] for r in L]


def members(c, k, dx, dy):
    """sector conditions of one movement"""
    if k in (1, 2, 4, 8):
        o = octant(c, dx, dy)
        q = 8 // k
        return [c.any_(o[s * q:(s + 1) * q]) for s in range(k)]
    th = c.arctan2(dy, dx)
    u = c.ite(th < 0, th + 2 * c.pi, th)
    e = [c.div(2 * i, k) * c.pi for i in range(k + 1)]
    return [c.and_(u >= e[i], u < e[i + 1]) for i in range(k)]


def rose(c, n, k, graph, t=2, rows=None, row=True, ids=None):
    w = weights(c, n, graph, ids)
    if row:
        w.transform = 'r'
    y, L, dx, dy = panel(c, n, t, rows, w)
    a = c.array(y, 'f')
    r = c.g.directional.Rose(a, w) if k is None else c.g.directional.Rose(a, w, k=k)
    k = 8 if k is None else k
    c.check('sectors', c.eq(r.k, k))
    c.check('edges', c.shape(r.cuts) == (k + 1,))
    c.check_eq('equal sectors', r.cuts, [c.div(2 * i, k) * c.pi for i in range(k + 1)])
    c.check_eq('bins', r.bins, [c.div(2 * i, k) * c.pi for i in range(k + 1)])
    c.check('one count per sector', c.shape(r.counts) == (k,))
    c.check_eq('lags', r.lag, L)
    c.check_eq('values', r.Y, y)
    c.check_eq('lags kept', r.wY, L)
    for i in range(n):
        c.check('length', c.eq(r.r[i], c.sqrt(dx[i] * dx[i] + dy[i] * dy[i])))
        c.check('angle', c.eq(r.theta[i], c.arctan2(dy[i], dx[i])))
    m = [members(c, k, dx[i], dy[i]) for i in range(n)]
    for s in range(k):
        c.check('count', c.eq(r.counts[s], c.count([m[i][s] for i in range(n)])))
    c.check('every movement once', c.eq(c.sum([r.counts[s] for s in range(k)]), n))
    c.check_eq('data unchanged', a, y)


def edges(c, ks):
    """any number of sectors"""
    w = weights(c, 2, ((1,), (0,)))
    k = c.pick('k', list(range(*ks)))
    y, L, dx, dy = panel(c, 2, 2, [[0, None], [0, 1]], w)
    r = c.g.directional.Rose(c.array(y, 'f'), w, k=k)
    c.check('edges', c.shape(r.cuts) == (k + 1,))
    c.check_eq('equal sectors', r.cuts, [c.div(2 * i, k) * c.pi for i in range(k + 1)])
    c.check('one count per sector', c.shape(r.counts) == (k,))
    c.check('every movement once', c.eq(c.sum(list(c.items(r.counts))), 2))


HARNESSES = [
    dict(name='rose', fn=rose,
         quick=[dict(n=2, k=k, graph=((1,), (0,))) for k in (1, 2, 4, 8, None)] + [dict(n=3, k=k, graph=PATH3) for k in (4, 8)] + [dict(n=2, k=k, graph=((1,), (0,))) for k in (3, 5, 6, 12, 16)]
         + [dict(n=3, k=4, graph=PATH3, t=3, row=False), dict(n=3, k=4, graph=PATH3, ids=['c', 'a', 'b']), dict(n=4, k=8, graph=STAR, rows=[[1, None], [None, 2], [0, 0], [3, None]])]
         + [dict(n=40, k=k, graph=('some', 40, 2), rows=dict(seed=4, n=40, t=2, hi=99, lo=-99, holes=[(7, 1)])) for k in (4, 8)] + [dict(n=20, k=8, t=12, row=False, graph=('rook', 4, 5), rows=dict(seed=5, n=20, t=12, hi=9, holes=[(19, 0)]))],
         thorough=[dict(n=3, k=k, graph=PATH3) for k in (3, 5, 6, 7, 10, 12, 16)] + [dict(n=4, k=k, graph=g) for g in (PATH4, STAR) for k in (4, 8)] + [dict(n=3, k=8, graph=None, row=False)]),
    dict(name='edges', fn=edges, quick=[dict(ks=(1, 41))], thorough=[dict(ks=(41, 121))]),
]
OUTSIDE = 'larger panels or more sectors than listed; angles off the axes and diagonals are only known up to their octant; floating-point angles within rounding of an edge; in the larger inputs all but a few cells are fixed values'
