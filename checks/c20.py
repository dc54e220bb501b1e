"""Geographic rank Markov."""
from .c19 import panel, order, tied_panel


def geo(c, n, t, free=None, fill=False, nested=False, ints=False, tied=False):
    if tied:
        y = tied_panel(c, n, t, tied)
    elif ints:
        y = [[c.num(c.value(c.fd(f'y_{i}_{s}', 0, n - 1))) for s in range(t)] for i in range(n)]
    else:
        y = panel(c, n, t, free)
    hold = [order(c, [r[s] for r in y])[0] for s in range(t)]       # hold[s][r]: unit at ascending position r
    a = c.array(y) if ints else c.array(y, 'f')
    if nested:
        a = c.items(a)
    m = c.g.markov.GeoRank_Markov(a, fill_empty_classes=fill, summary=False)
    c.check_eq('classes', m.classes, list(range(1, n + 1)))
    N = [[sum(hold[s][r] == i and hold[s + 1][r] == j for r in range(n) for s in range(t - 1)) for j in range(n)] for i in range(n)]
    c.check_eq('transitions', m.transitions, N)
    got = c.items(m.transitions)
    for q in range(n):
        c.check('every unit is left t-1 times', c.eq(c.sum(got[q]), t - 1))
        c.check('every unit is entered t-1 times', c.eq(c.sum([r[q] for r in got]), t - 1))
    c.check_eq('probabilities', m.p, [[c.div(v, t - 1) for v in r] for r in N])


HARNESSES = [
    dict(name='geo', fn=geo, quick=[dict(n=3, t=2), dict(n=4, t=3, free=[1]), dict(n=2, t=4, nested=True), dict(n=3, t=2, ints=True, fill=True), dict(n=20, t=2, tied=True), dict(n=40, t=9, tied=True), dict(n=14, t=3, tied=1 << 24), dict(n=3, t=25, free=[24]), dict(n=2, t=130, free=[1])],
         thorough=[dict(n=3, t=3), dict(n=4, t=2, free=[0]), dict(n=5, t=3, free=[1]), dict(n=2, t=5), dict(n=3, t=2, ints=True), dict(n=24, t=3, tied=True), dict(n=60, t=2, tied=True)]),
]
OUTSIDE = 'more units or periods than listed; in the larger inputs all but a few cells are fixed values'
