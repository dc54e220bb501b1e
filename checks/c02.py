"""Maximum likelihood transition probabilities and filling of empty classes."""
from .c01 import panel, expected


def mle(c, n, t, k=None, fill=False, classes=None, wide=None):
    x = panel(c, n, t, k, wide=wide)
    kw = dict(fill_empty_classes=fill, summary=False)
    if classes is not None:
        kw['classes'] = c.array(classes)
    m = c.g.markov.Markov(c.array(x), **kw)
    T = expected(c, x, classes if classes is not None else c.items(m.classes))
    p = c.items(m.p)
    c.check('shape of p', c.shape(m.p) == (len(T), len(T)))
    for i in range(len(T)):
        rs = c.sum(T[i])
        for j in range(len(T)):
            c.check('probability times row total is the count', c.implies(rs > 0, c.eq(p[i][j] * rs, T[i][j])))
            want = (1 if i == j else 0) if fill else 0
            c.check('row without observations', c.implies(rs == 0, c.eq(p[i][j], want)))
        if fill:
            c.check('rows sum to one', c.eq(c.sum(p[i]), 1))
    c.check_eq('counts are not changed by filling', m.transitions, T)


def many(c, rows, hi, fill):
    """each row stands for an arbitrary number of equal units, up to hi"""
    x = c.weighted(rows, hi, exact=True)
    k = 2 + max(v for r in rows for v in r)
    m = c.g.markov.Markov(x, classes=c.array(list(range(k))), fill_empty_classes=fill, summary=False)
    w = [c.units(i, hi) for i in range(len(rows))]
    p = c.items(m.p)
    for i in range(k):
        N = [[w[u] * list(zip(r, r[1:])).count((i, j)) for u, r in enumerate(rows)] for j in range(k)]
        if not any(i in r[:-1] for r in rows):
            c.check_eq('row without observations', p[i], [int(fill and i == j) for j in range(k)])
            continue
        tot = c.sum([c.sum(v) for v in N])
        for j in range(k):
            c.check('shares of many units', c.eq(p[i][j] * tot, c.sum(N[j])))


HARNESSES = [
    dict(name='mle', fn=mle,
         quick=[dict(n=2, t=3, k=2, fill=f, classes=cl) for f in (False, True) for cl in (None, [0, 1, 2])]
         + [dict(n=1, t=4, k=3, fill=f, classes=cl) for f in (False, True) for cl in (None, [2, 0, 1])]
         + [dict(n=2, t=2, k=3, fill=True, classes=None), dict(n=3, t=2, k=2, fill=False, classes=[1, 0])]
         + [dict(n=12, t=7, fill=f, classes=cl, wide=dict(seed=3, hi=11, holes=[(3, 6)])) for f in (False, True) for cl in (None, list(range(13, -1, -1)))] + [dict(n=200, t=2, fill=True, wide=dict(seed=1, hi=1, holes=[(3, 1)]))],
         thorough=[dict(n=n, t=t, k=k, fill=f, classes=cl) for n, t, k in ((2, 3, 3), (3, 3, 2), (3, 2, 3), (1, 5, 3), (2, 2, 4))
                   for f in (False, True) for cl in (None, [3, 2, 1, 0])]),
    dict(name='many', fn=many, quick=[dict(rows=[[0, 0, 1], [1, 0, 0], [0, 2, 2]], hi=1000000, fill=True), dict(rows=[[0, 2, 2], [1, 2, 2], [2, 2, 4]], hi=200000, fill=False)],
         thorough=[dict(rows=[[0, 0], [0, 1], [1, 1], [1, 0], [2, 2]], hi=1000000, fill=False), dict(rows=[[0, 0, 0, 0, 0, 0], [0, 1, 2, 3, 4, 5]], hi=4000000, fill=True)]),
]
OUTSIDE = 'panels with more units, periods or classes than listed; in the larger inputs all but a few cells are fixed values'
