"""Homogeneity tests."""
from .common import table


def tables(c, m, r, k, kind, wide=None):
    if wide:
        # mostly fixed counts
        out = [table(dict(wide, seed=wide['seed'] + q, n=r, t=k, holes=())) for q in range(m)]
        for q, i, j in wide['holes']:
            out[q][i][j] = c.real(f'n{q}_{i}_{j}', 0)
        return [[[c.num(v) for v in x] for x in y] for y in out]
    if kind == 'i':
        return [c.ints(f'n{q}', (r, k), 0, relaxed=True) for q in range(m)]
    return [c.reals(f'n{q}', (r, k), 0) for q in range(m)]


def homogeneity(c, m, r, k, kind='i', part='Q', wide=None):
    c.fractions()
    M = tables(c, m, r, k, kind, wide)
    pos = [[[c.fork(M[q][i][j] > 0) for j in range(k)] for i in range(r)] for q in range(m)]
    h = c.g.markov.homogeneity([c.array(x) for x in M])
    N = [[c.sum([M[q][i][j] for q in range(m)]) for j in range(k)] for i in range(r)]
    Ni = [c.sum(x) for x in N]
    nim = [[c.sum(M[q][i]) for i in range(r)] for q in range(m)]
    pp = [[any(pos[q][i][j] for q in range(m)) for j in range(k)] for i in range(r)]
    p0 = [[N[i][j] / Ni[i] if pp[i][j] else c.num(0) for j in range(k)] for i in range(r)]
    p1 = [[[M[q][i][j] / nim[q][i] if pos[q][i][j] else c.num(0) for j in range(k)] for i in range(r)] for q in range(m)]
    dof = 0
    for i in range(r):
        a = sum(pp[i])
        b = sum(any(pos[q][i]) for q in range(m))
        if a:
            dof += (b - 1) * (a - 1)
    if part == 'Q':
        c.check_eq('pooled probabilities', h.p_h0, p0)
        c.check_eq('regime probabilities', h.p_h1, p1)
        c.check('degrees of freedom', c.eq(h.dof, dof))
        Q = []
        for q in range(m):
            for i in range(r):
                for j in range(k):
                    if pp[i][j] and any(pos[q][i]):
                        d = p1[q][i][j] - p0[i][j]
                        t = nim[q][i] * d * d / p0[i][j]
                        Q.append(t)
                        c.check('cell of the Q table', c.eq(h.Q_table[q][i][j], t))
                    else:
                        c.check('empty cell of the Q table', c.eq(h.Q_table[q][i][j], 0))
        c.check('Q', c.eq(h.Q, c.sum(Q)))
        if dof > 0:
            c.check('p-value of Q', c.eq(h.Q_p_value, c.chi2sf(h.Q, dof)))
    else:
        L = []
        for q in range(m):
            for i in range(r):
                for j in range(k):
                    if pos[q][i][j]:
                        t = 2 * M[q][i][j] * c.log(p1[q][i][j] / p0[i][j])
                        L.append(t)
                        c.check('cell of the LR table', c.eq(h.LR_table[q][i][j], t))
                    else:
                        c.check('empty cell of the LR table', c.eq(h.LR_table[q][i][j], 0))
        c.check('LR', c.eq(h.LR, c.sum(L) if L else 0))
        if dof > 0:
            c.check('p-value of LR', c.eq(h.LR_p_value, c.chi2sf(h.LR, dof)))


def identical(c, m, r, k):
    """the same table in every regime, scaled"""
    base = c.ints('n', (r, k), 0, relaxed=True)
    s = [c.int_(f's{q}', 1, relaxed=True) for q in range(m)]
    h = c.g.markov.homogeneity([c.array([[v * s[q] for v in row] for row in base]) for q in range(m)])
    c.check('Q is zero', c.eq(h.Q, 0))
    c.check('LR is zero', c.eq(h.LR, 0))


HARNESSES = [
    dict(name='homogeneity', fn=homogeneity,
         quick=[dict(m=2, r=2, k=2, kind='i', part=p) for p in ('Q', 'LR')] + [dict(m=2, r=2, k=2, kind='f', part='Q'), dict(m=3, r=1, k=2, kind='i', part='Q'),
                dict(m=2, r=1, k=3, kind='i', part='LR'), dict(m=2, r=1, k=3, kind='f', part='Q')]
         + [dict(m=m, r=r, k=k, part=p, wide=dict(seed=m, hi=hi, holes=[(1, 0, 0)])) for p in ('Q', 'LR') for m, r, k, hi in ((12, 3, 3, 1), (2, 11, 5, 3), (3, 2, 12, 1))],
         thorough=[dict(m=2, r=2, k=2, kind=t, part=p) for p in ('Q', 'LR') for t in ('i', 'f')] +
         [dict(m=3, r=2, k=2, kind='i', part='Q'), dict(m=2, r=2, k=3, kind='i', part='Q'), dict(m=2, r=3, k=2, kind='i', part='LR'),
          dict(m=3, r=1, k=3, kind='i', part='LR'), dict(m=4, r=1, k=2, kind='f', part='Q')]),
    dict(name='identical', fn=identical, quick=[dict(m=2, r=2, k=2), dict(m=3, r=1, k=3)], thorough=[dict(m=2, r=2, k=3), dict(m=3, r=2, k=2)]),
]
OUTSIDE = 'more regimes, rows or columns than listed; the p-value for zero degrees of freedom; in the larger inputs all but a few cells are fixed values'
