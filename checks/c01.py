"""Classic Markov transition counts."""
from .common import table


def panel(c, n, t, k, lo=0, wide=None):
    if wide:
        # mostly fixed labels; float labels are the integers divided by four
        d = 4 if wide.get('float') else 1
        rows = table(dict(wide, n=n, t=t))
        at = sorted({v for r in rows for v in r if v is not None})
        rows = [[c.num(v) if v is not None else c.num(c.pick(f'x{i}_{s}', at)) for s, v in enumerate(r)] for i, r in enumerate(rows)]
        return [[c.div(v, d) for v in r] for r in rows] if d > 1 else rows
    return c.fds('x', (n, t), lo, lo + k - 1)


def expected(c, x, classes):
    n, t = len(x), len(x[0])
    return [[c.count([c.and_(x[u][s] == a, x[u][s + 1] == b) for u in range(n) for s in range(t - 1)])
             for b in classes] for a in classes]


def counts(c, n, t, k=None, classes=None, wide=None):
    x = panel(c, n, t, k, wide=wide)
    a = c.array(x)
    classes = sorted({v for r in table(dict(wide, n=n, t=t)) for v in r if v is not None}, key=lambda v: (v * 7) % 11) if classes == 'mixed' else classes
    if classes is None:
        m = c.g.markov.Markov(a, summary=False)
        cls = c.items(m.classes)
        # every visited label is a class, classes are distinct and visited
        for u in x:
            for v in u:
                c.check('every label is a class', c.any_([v == q for q in cls]))
        for q in range(len(cls)):
            c.check('every class is visited', c.any_([v == cls[q] for u in x for v in u]))
            if q:
                c.check('classes in increasing order', cls[q - 1] < cls[q])
    else:
        m = c.g.markov.Markov(a, classes=c.array(classes), summary=False)
        cls = classes
        c.check_eq('classes reported as supplied', m.classes, classes)
    c.check_eq('k', m.k, len(cls))
    e = expected(c, x, cls)
    c.check_eq('counts', m.transitions, e)
    c.check_eq('total', c.sum([v for r in c.items(m.transitions) for v in r]), n * (t - 1))


def text_labels(c, n, t, labels, given):
    """labels of any type: here strings"""
    k = len(labels)
    ix = [[c.choose('x', k) for _ in range(t)] for _ in range(n)]
    x = [[labels[v] for v in r] for r in ix]
    a = c.np.array(x)
    if given:
        m = c.g.markov.Markov(a, classes=c.np.array(labels), summary=False)
        cls = list(labels)
    else:
        m = c.g.markov.Markov(a, summary=False)
        cls = sorted(set(v for r in x for v in r))
    c.check('k', m.k == len(cls))
    e = [[sum(x[u][s] == p and x[u][s + 1] == q for u in range(n) for s in range(t - 1)) for q in cls] for p in cls]
    c.check_eq('counts', m.transitions, e)


def many(c, rows, hi, given=False):
    """each row stands for an arbitrary number of equal units, up to hi"""
    x = c.weighted(rows, hi, exact=True)
    k = 1 + max(v for r in rows for v in r)
    m = c.g.markov.Markov(x, summary=False, **(dict(classes=c.array(list(range(k)))) if given else {}))
    w = [c.units(i, hi) for i in range(len(rows))]
    cls = list(range(k)) if given else sorted({v for r in rows for v in r})
    N = c.items(m.transitions)
    for i, p in enumerate(cls):
        for j, q in enumerate(cls):
            c.check('counts of many units', c.eq(N[i][j], c.sum([w[u] * list(zip(r, r[1:])).count((p, q)) for u, r in enumerate(rows)])))


HARNESSES = [
    dict(name='counts', fn=counts,
         quick=[dict(n=1, t=4, k=3), dict(n=2, t=2, k=3), dict(n=2, t=3, k=2),
                dict(n=2, t=3, k=2, classes=[0, 1]), dict(n=2, t=2, k=3, classes=[2, 0, 1]),
                dict(n=1, t=4, k=2, classes=[5, 1, 0]), dict(n=3, t=2, k=2, classes=[1, 7, 0]),
                dict(n=300, t=2, wide=dict(seed=1, hi=1, holes=[(3, 1)])), dict(n=3, t=40, wide=dict(seed=2, lo=-5, hi=6, holes=[(2, 30)])), dict(n=30, t=5, wide=dict(seed=3, lo=-9, hi=4, holes=[(29, 0)], float=True)),
                dict(n=9, t=12, classes='mixed', wide=dict(seed=4, lo=-3, hi=9, holes=[(0, 11)]))],
         thorough=[dict(n=1, t=5, k=3), dict(n=2, t=3, k=3), dict(n=3, t=3, k=2), dict(n=3, t=2, k=3), dict(n=2, t=2, k=4),
                   dict(n=2, t=3, k=3, classes=[2, 0, 1]), dict(n=3, t=3, k=2, classes=[0, 1]),
                   dict(n=2, t=4, k=2, classes=[1, 5, 0]), dict(n=4, t=2, k=2, classes=[1, 0]),
                   dict(n=70, t=20, wide=dict(seed=4, lo=0, hi=40, holes=[(69, 19), (0, 0)]))]),
    dict(name='many', fn=many, quick=[dict(rows=[[0, 0, 1], [1, 0, 0]], hi=1000000), dict(rows=[[0, 2, 2], [1, 2, 2], [2, 2, 1]], hi=200000, given=True)],
         thorough=[dict(rows=[[0, 0], [0, 1], [1, 1], [1, 0], [2, 2]], hi=1000000), dict(rows=[[0, 0, 0, 0, 0, 0]], hi=4000000, given=True)]),
    dict(name='text', fn=text_labels, quick=[dict(n=2, t=2, labels=['b', 'aa', 'c10'], given=g) for g in (False, True)] + [dict(n=1, t=3, labels=['x', 'Low', 'low'], given=g) for g in (False, True)],
         thorough=[dict(n=2, t=3, labels=['b', 'aa'], given=g) for g in (False, True)] + [dict(n=1, t=5, labels=['10', '9', '1'], given=g) for g in (False, True)]),
]
OUTSIDE = 'panels with more units, periods or classes than listed; NaN labels; in the larger inputs all but a few cells are fixed values'
