"""Set-up shared by the spatial Markov checks."""
from .common import table
from .c22 import weights


def setup(c, n, t, mode, k=2, m=2, perms=0, fill=False, fixed=True, row=True, graph=None, extra=None, wide=None, ids=None):
    """(model, y, w, cutoffs, lag cutoffs); mode: 'disc' (labels), 'cut' (symbolic cutoffs), 'quant', 'classes' (concrete label grid)"""
    if graph is None:
        w = c.graph(n, islands=mode != 'disc')
    else:
        w = weights(c, n, graph, ids)
    if row:
        w.transform = 'r'
    kw = dict(permutations=perms, fill_empty_classes=fill)
    cut = lcut = None
    if mode == 'disc':
        y = cells(c, wide, n, t) if wide else c.fds('y', (n, t), 0, k - 1)
        kw.update(discrete=True)
    else:
        y = panel(c, dict(wide, n=n, t=t), 0, 100) if wide else c.reals('y', (n, t), 0, 100)
        if mode == 'cut':
            cut = c.reals('cut', (k - 1,), 0, 100) if not wide else [c.num(v) for v in wide['cut']]
            lcut = c.reals('lcut', (m - 1,), 0, 100) if not wide else [c.num(v) for v in wide['lcut']]
            for q in (cut, lcut):
                for i in range(len(q) - 1):
                    c.assume(q[i] < q[i + 1])
            kw.update(cutoffs=c.array(cut, 'f'), lag_cutoffs=c.array(lcut, 'f'))
            # decide the classes first: the analysis then runs on known classes
            for q, v in ((cut, y), (lcut, lag(c, w, y))):
                for r in v:
                    for x in r:
                        for b in q:
                            c.fork(b < x)
        else:
            kw.update(k=k, m=m, fixed=fixed)
    kw.update(extra or {})
    a = c.array(y) if mode == 'disc' else c.array(y, 'f')
    return c.g.markov.Spatial_Markov(a, w, **kw), y, w, cut, lcut


def lag(c, w, y):
    """spatial lag of every period from the weights themselves"""
    n, t = len(y), len(y[0])
    ids = list(w.id_order)
    out = []
    for i in ids:
        out.append([c.sum([c.num(x) * y[ids.index(j)][s] for j, x in zip(w.neighbors[i], w.weights[i])]) for s in range(t)])
    return out


def below(c, cuts, v):
    return c.count([q < v for q in cuts])


def tables(c, cls, lcls, k, m):
    n, t = len(cls), len(cls[0])
    return [[[c.count([c.and_(lcls[u][s] == l, cls[u][s] == i, cls[u][s + 1] == j) for u in range(n) for s in range(t - 1)])
              for j in range(k)] for i in range(k)] for l in range(m)]


def chi2_stat(c, T1, T2):
    """the statistic of C13"""
    k = len(T1)
    out = []
    for i in range(k):
        r1, r2 = c.sum(T1[i]), c.sum(T2[i])
        for j in range(k):
            e = r1 * T2[i][j]
            # expected e / r2; cells without expectation count the square
            if c.fork(e == 0):
                out.append(T1[i][j] * T1[i][j])
            else:
                d = T1[i][j] * r2 - e
                out.append(d * d / (e * r2))
    return c.sum(out)


def cells(c, wide, n, t):
    """mostly fixed labels"""
    rows = table(dict(wide, n=n, t=t))
    at = sorted({v for r in rows for v in r if v is not None})
    return [[c.num(v) if v is not None else c.num(c.pick(f'y_{i}_{s}', at)) for s, v in enumerate(r)] for i, r in enumerate(rows)]


def panel(c, rows, lo=0, hi=9):
    """concrete panel; None marks an arbitrary value"""
    return [[c.num(v) if v is not None else c.real(f'y_{i}_{s}', lo, hi) for s, v in enumerate(r)] for i, r in enumerate(table(rows))]


def decide(c, cuts, grid):
    """class of every value, decided on this path"""
    out = []
    for r in grid:
        row = []
        for x in r:
            q = 0
            while q < len(cuts) and c.fork(cuts[q] < x):
                q += 1
            for b in cuts[q + 1:]:
                c.fork(b < x)           # implied
            row.append(q)
        out.append(row)
    return out


def cat_lag(c, w, cls):
    """categorical lags of label indices; None where the winner is drawn at random"""
    n, t = len(cls), len(cls[0])
    out = []
    for i in range(n):
        row = []
        for p in range(t):
            nb = w.neighbors[i]
            own = cls[i][p]
            votes = {}
            for j in nb:
                votes[cls[j][p]] = votes.get(cls[j][p], 0) + 1
            top = max(votes.values())
            best = [q for q in votes if votes[q] == top]
            if len(best) > 1:
                votes[own] = votes.get(own, 0) + 1
                top = max(votes.values())
                best = [q for q in votes if votes[q] == top]
            row.append(best[0] if len(best) == 1 else None)
        out.append(row)
    return out
