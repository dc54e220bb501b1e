"""Classification of states."""
from .c01 import panel, expected
from .common import reach_closure, classes_of, ints, table


def wide(c, seed, n, t, k, holes, step=1, fill=False, group=3):
    """units moving mostly within groups of labels i, i + group, ...; a few arbitrary labels"""
    W = table(dict(seed=seed, n=n, t=t, hi=k - 1))
    x = []
    for i, r in enumerate(W):
        at = [q for q in range(k) if q % group == i % group]
        x.append([c.num(c.pick(f'x{i}_{s}', [0, 1, k - 1]) * step) if (i, s) in {tuple(h) for h in holes} else c.num(at[v % len(at)] * step) for s, v in enumerate(r)])
    cl = [q * step for q in range(k)]
    m = c.g.markov.Markov(c.array(x), classes=c.array(cl), fill_empty_classes=fill, summary=False)
    y = [[int(c.value(v)) for v in r] for r in x]
    judge(c, m, [[any((a, b) in zip(r, r[1:]) for r in y) for b in cl] for a in cl])


def classes(c, n, t, k, cl=None, fill=False):
    x = panel(c, n, t, k)
    kw = dict(fill_empty_classes=fill, summary=False)
    if cl is not None:
        kw['classes'] = c.array(cl)
    m = c.g.markov.Markov(c.array(x), **kw)
    T = expected(c, x, cl if cl is not None else c.items(m.classes))
    q = len(T)
    judge(c, m, [[c.fork(T[i][j] > 0) for j in range(q)] for i in range(q)])


def rounding(c, rows, k, hi, fill=False):
    """each row stands for up to hi equal units; probabilities are IEEE doubles"""
    x = c.weighted(rows, hi)
    m = c.g.markov.Markov(x, classes=c.array(list(range(k))), fill_empty_classes=fill, summary=False)
    adj = [[any(i in r[:-1] and (i, j) in zip(r, r[1:]) for r in rows) for j in range(k)] for i in range(k)]
    judge(c, m, adj)


def judge(c, m, adj):
    q = len(adj)
    cls, rec = classes_of(reach_closure(adj))
    tr = [g for g in cls if g not in rec]
    absorbing = [i for i in range(q) if not any(adj[i][j] for j in range(q) if j != i)]

    def norm(gs):
        return sorted(sorted(ints(c, g)) for g in (gs if gs is not None else []))
    c.check('communicating classes', norm(m.cclasses_indices) == sorted(cls))
    c.check('number of communicating classes', int(m.num_cclasses) == len(cls))
    c.check('recurrent classes', norm(m.rclasses_indices) == sorted(rec))
    c.check('number of recurrent classes', int(m.num_rclasses) == len(rec))
    c.check('transient classes', norm(m.tclasses_indices) == sorted(tr))
    c.check('number of transient classes', int(m.num_tclasses) == len(tr))
    flat = []
    for a in m.astates_indices:
        a = ints(c, a)
        flat += a if isinstance(a, list) else [a]
    c.check('absorbing states', sorted(flat) == absorbing)
    c.check('number of absorbing states', int(m.num_astates) == len(absorbing))


HARNESSES = [
    dict(name='classes', fn=classes,
         quick=[dict(n=1, t=4, k=3), dict(n=2, t=2, k=3), dict(n=2, t=3, k=2), dict(n=2, t=2, k=2, cl=[0, 1, 2]),
                dict(n=3, t=2, k=3), dict(n=1, t=5, k=3, fill=True), dict(n=2, t=2, k=3, cl=[2, 0, 1, 5], fill=True)],
         thorough=[dict(n=3, t=2, k=3), dict(n=1, t=6, k=3), dict(n=2, t=3, k=3), dict(n=2, t=2, k=4), dict(n=3, t=3, k=2),
                   dict(n=2, t=3, k=3, fill=True), dict(n=2, t=3, k=3, cl=[2, 1, 0, 7])]),
    dict(name='wide', fn=wide,
         quick=[dict(seed=1, n=4, t=30, k=9, holes=[(0, 14)]), dict(seed=2, n=6, t=9, k=14, holes=[(5, 8)], step=3), dict(seed=3, n=12, t=3, k=20, holes=[(0, 1), (7, 2)], group=5, fill=True), dict(seed=4, n=5, t=4, k=11, holes=[(2, 0)], group=2)],
         thorough=[dict(seed=5, n=6, t=40, k=30, holes=[(0, 14), (3, 39)], group=6), dict(seed=6, n=10, t=4, k=25, holes=[(1, 0), (2, 3)], group=4, fill=True), dict(seed=7, n=40, t=2, k=12, holes=[(39, 1), (0, 0)], group=7)]),
    dict(name='rounding', fn=rounding,
         quick=[dict(rows=[[0, 0], [1, 0]], k=2, hi=1000000), dict(rows=[[0, 0], [0, 1]], k=2, hi=200000),
                dict(rows=[[0, 0, 0], [1, 2, 1]], k=4, hi=300000)],
         thorough=[dict(rows=[[0, 0], [1, 0], [1, 1]], k=2, hi=100), dict(rows=[[0, 0], [1, 0], [1, 1], [1, 2], [2, 2]], k=3, hi=1000000),
                   dict(rows=[[0, 1], [1, 1], [1, 0], [2, 2], [2, 2]], k=3, hi=1000000, fill=True)]),
]
OUTSIDE = 'panels with more units, periods or classes than listed; in the larger inputs all but a few cells are fixed values'
