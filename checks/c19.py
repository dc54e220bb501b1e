"""Full rank Markov."""
from .common import pairs


def panel(c, n, t, free=None):
    """arbitrary values in the listed periods (all by default), in a known order on this path"""
    y = []
    for i in range(n):
        y.append([c.real(f'y_{i}_{s}', -9, 9) if free is None or s in free else c.num((3 * i + 2 * s + i * s) % 7) for s in range(t)])
    return y


def tied_panel(c, n, t, at=0):
    """many units sharing a few values (more than numpy sorts by insertion) and one arbitrary value"""
    # at > 1: distinct numbers next to each other
    y = [[c.num((i * 7 + s * i + s) % 4 if at <= 1 else at + (i * 5 + s) % n) for s in range(t)] for i in range(n)]
    y[n // 2][1] = c.real('v', -9, 9)
    return y


def order(c, col):
    """positions in ascending order, ties by storage order"""
    n = len(col)
    below = [sum(1 for j in range(n) if j != i and (c.fork(col[j] < col[i]) if not (j < i and c.fork(col[j] == col[i])) else True)) for i in range(n)]
    return sorted(range(n), key=lambda i: below[i]), below


def full(c, n, t, free=None, fill=False, nested=False, ints=False, tied=False):
    if tied:
        y = tied_panel(c, n, t, tied)
    elif ints:
        y = [[c.num(c.value(c.fd(f'y_{i}_{s}', 0, n - 1))) for s in range(t)] for i in range(n)]
    else:
        y = panel(c, n, t, free)
    rank = [[0] * t for _ in range(n)]
    for s in range(t):
        _, b = order(c, [r[s] for r in y])
        for i in range(n):
            rank[i][s] = n - b[i]
    a = c.array(y) if ints else c.array(y, 'f')
    if nested:
        a = c.items(a)
    m = c.g.markov.FullRank_Markov(a, fill_empty_classes=fill, summary=False)
    c.check_eq('ranks', m.ranks, rank)
    c.check_eq('classes', m.classes, list(range(1, n + 1)))
    N = [[sum(rank[i][s] == a_ and rank[i][s + 1] == b for i in range(n) for s in range(t - 1)) for b in range(1, n + 1)] for a_ in range(1, n + 1)]
    c.check_eq('transitions', m.transitions, N)
    got = c.items(m.transitions)
    for q in range(n):
        c.check('every rank is left t-1 times', c.eq(c.sum(got[q]), t - 1))
        c.check('every rank is entered t-1 times', c.eq(c.sum([r[q] for r in got]), t - 1))
    c.check_eq('probabilities', m.p, [[c.div(v, t - 1) for v in r] for r in N])


HARNESSES = [
    dict(name='full', fn=full, quick=[dict(n=3, t=2), dict(n=4, t=3, free=[1]), dict(n=2, t=4, nested=True), dict(n=3, t=2, ints=True, fill=True), dict(n=20, t=2, tied=True), dict(n=40, t=9, tied=True), dict(n=14, t=3, tied=1 << 24), dict(n=3, t=25, free=[24]), dict(n=2, t=130, free=[1])],
         thorough=[dict(n=3, t=3), dict(n=4, t=2, free=[0]), dict(n=5, t=3, free=[1]), dict(n=2, t=5), dict(n=3, t=2, ints=True), dict(n=24, t=3, tied=True), dict(n=60, t=2, tied=True)]),
]
OUTSIDE = 'more units or periods than listed; in the larger inputs all but a few cells are fixed values'
