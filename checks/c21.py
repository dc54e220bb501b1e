"""Kendall's tau."""
from .common import pairs, vec


def series(c, name, n, ints=False, fixed=None):
    """arbitrary values; None in fixed marks an arbitrary one"""
    out = []
    fixed = vec(fixed)
    for i in range(n):
        if fixed is not None and fixed[i] is not None:
            out.append(c.num(fixed[i]))
        elif ints:
            out.append(c.num(c.value(c.fd(f'{name}{i}', 0, n - 1))))
        else:
            out.append(c.real(f'{name}{i}', -9, 9))
    return out


def decide(c, v):
    """sign of v[j] - v[i] for every pair, decided on this path"""
    n = len(v)
    s = {}
    for i, j in pairs(n):
        d = 1 if c.fork(v[i] < v[j]) else (0 if c.fork(v[i] == v[j]) else -1)
        s[i, j] = d
        s[j, i] = -d
    return s


def counts(sx, sy, ps):
    """concordant, discordant, untied in x, untied in y"""
    con = sum(sx[p] * sy[p] > 0 for p in ps)
    dis = sum(sx[p] * sy[p] < 0 for p in ps)
    return con, dis, sum(sx[p] != 0 for p in ps), sum(sy[p] != 0 for p in ps)


def make(c, v, kind):
    return c.items(c.array(v)) if kind == 'list' else c.array(v, 'f') if kind == 'f' else c.array(v)


def same(c, a, b):
    return c.or_(c.and_(c.isnan(a), c.isnan(b)), c.eq(a, b)) if c.isnan(a) or c.isnan(b) else c.eq(a, b)


def tau(c, n, kind='f', x=None, y=None, swap=False):
    ints = kind != 'f'
    vx, vy = series(c, 'x', n, ints, x), series(c, 'y', n, ints, y)
    sx, sy = decide(c, vx), decide(c, vy)
    con, dis, ux, uy = counts(sx, sy, pairs(n))
    t = c.g.rank.Tau(make(c, vx, kind), make(c, vy, kind))
    c.check('concordant', c.eq(t.concordant, con))
    c.check('discordant', c.eq(t.discordant, dis))
    c.check('tied in y only', c.eq(t.extraX, ux - con - dis))
    c.check('tied in x only', c.eq(t.extraY, uy - con - dis))
    if ux and uy:
        want = c.div(con - dis, c.sqrt(c.num(ux)) * c.sqrt(c.num(uy)))
        c.check('tau', c.eq(t.tau, want))
        z = c.abs(t.tau) / c.sqrt(c.div(4 * n + 10, 9 * n * (n - 1)))
        c.check('p-value', c.or_(c.eq(t.tau_p, c.erfc(z / c.num(1.4142136))), c.eq(t.tau_p, c.erfc(z / c.sqrt(c.num(2))))))
    if swap:
        s = c.g.rank.Tau(make(c, vy, kind), make(c, vx, kind))
        c.check('swapping the series', c.and_(same(c, s.tau, t.tau), c.eq(s.extraX, t.extraY), c.eq(s.extraY, t.extraX)))
        g = c.g.rank.Tau(make(c, [-v for v in vx], kind), make(c, vy, kind))
        c.check('reversing a series', same(c, g.tau, -t.tau))
        c.check('reversing a series exchanges the counts', c.and_(c.eq(g.concordant, t.discordant), c.eq(g.discordant, t.concordant)))


HARNESSES = [
    dict(name='tau', fn=tau,
         quick=[dict(n=3, swap=True), dict(n=2, kind='list'), dict(n=3, kind='i', y=[None, None, 1]), dict(n=5, x=[2, 1, 2, 3, 1], y=[None, None, None, None, 2]),
                dict(n=5, y=[4, 1, 4, 1, 4], x=[None, None, None, 1, None]), dict(n=6, x=[1, 2, 3, 4, 5, 6], y=[2, None, None, None, 2, 5]), dict(n=4, x=[1, 1, 2, 2]),
                dict(n=34, x=dict(seed=1, n=34, hi=4, holes=[11]), y=dict(seed=2, n=34, hi=3, holes=[19])),
                dict(n=70, x=dict(seed=3, n=70, hi=60, holes=[69]), y=dict(seed=4, n=70, hi=4)), dict(n=20, kind='i', x=dict(seed=5, n=20, hi=300, distinct=True), y=dict(seed=6, n=20, hi=300, lo=-300, holes=[0])),
                dict(n=22, x=dict(seed=7, n=22, hi=30, plus=1 << 24, holes=[3]), y=dict(seed=8, n=22, hi=20, plus=1 << 25)), dict(n=290, x=dict(seed=9, n=290, hi=900, distinct=True, down=True), y=[None] + [q // 30 for q in range(289)]), dict(n=270, x=dict(seed=9, n=270, hi=4), y=[None] + [3] * 269)],
         thorough=[dict(n=4), dict(n=4, kind='i', x=[None, 1, 2, None]), dict(n=5, x=[1, 2, 3, 4, 5]), dict(n=5, x=[1, 1, 2, 2, 2]), dict(n=6, x=[1, 2, 2, 1, 3, 3], y=[None, None, None, None, 1, 2]),
                   dict(n=264, x=dict(seed=3, n=264, hi=60, holes=[100]), y=dict(seed=4, n=264, hi=300))]),
]
OUTSIDE = 'longer series than listed; overflow of very large values; in the larger inputs all but a few cells are fixed values'
