"""Sojourn times."""
from .common import stochastic, matrices


def sojourn(c, k, empty=False, summary=False, ints=False, wide=None):
    P = matrices(c, k, wide=wide)[0] if wide else stochastic(c, k, empty=empty, ints=ints)
    a = c.array(P)
    before = c.copy(a)
    st = c.items(c.g.markov.sojourn_time(a, summary=summary))
    c.check('one value per state', len(st) == k)
    for i in range(k):
        d = P[i][i]
        zero = c.eq(c.sum(P[i]), 0)
        stay = c.or_(c.eq(d, 1), zero)
        if c.fork(stay):
            c.check('infinite for states that are never left', c.isinf(st[i]))
            c.check('positive infinity', c.isinf(st[i]) and bool(st[i] > 0))
        else:
            c.check('finite otherwise', not c.isinf(st[i]) and not c.isnan(st[i]))
            c.check('1/(1-p_ii)', c.eq(st[i] * (1 - d), 1))
    c.check_eq('input unchanged', a, before)


def attribute(c, n, t, k):
    """the property of the Markov class is the function applied to its p"""
    x = c.fds('x', (n, t), 0, k - 1)
    m = c.g.markov.Markov(c.array(x), classes=c.array(list(range(k))), summary=False)
    st = c.items(m.sojourn_time)
    p = c.items(m.p)
    for i in range(k):
        out = c.count([c.and_(x[u][s] == i, x[u][s + 1] != i) for u in range(n) for s in range(t - 1)])
        if c.fork(out == 0):
            c.check('infinite when never left', c.isinf(st[i]))
        else:
            c.check('1/(1-p_ii)', c.eq(st[i] * (1 - p[i][i]), 1))


HARNESSES = [
    dict(name='sojourn', fn=sojourn,
         quick=[dict(k=k, empty=e, summary=s) for k in (2, 3) for e in (False, True) for s in (False, True)]
         + [dict(k=4, empty=False, summary=False), dict(k=3, empty=False, summary=True, ints=True), dict(k=3, empty=True, summary=False, ints=True)]
         + [dict(k=12, wide=dict(seed=1, kind='empty', rows=[0, 4]), summary=s) for s in (False, True)] + [dict(k=9, wide=dict(seed=2, kind='moves')), dict(k=20, wide=dict(seed=3, rows=[0, 19], kind='ring')), dict(k=15, wide=dict(seed=4, kind='blocks', rows=[14]))],
         thorough=[dict(k=k, empty=e, summary=s) for k in (1, 2, 3, 4, 5) for e in (False, True) for s in (False, True)]
         + [dict(k=k, empty=True, summary=False, ints=True) for k in (2, 3, 4)]),
    dict(name='attribute', fn=attribute, quick=[dict(n=2, t=2, k=3), dict(n=1, t=4, k=2)],
         thorough=[dict(n=2, t=3, k=3), dict(n=1, t=5, k=3)]),
]
OUTSIDE = 'more states than listed; in the larger inputs all but a few cells are fixed values'
