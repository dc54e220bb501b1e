"""Kullback conditional homogeneity statistic."""
from .common import table


def given(c, s, r, wide):
    out = [table(dict(wide, seed=wide['seed'] + q, n=r, t=r, holes=())) for q in range(s)]
    for q, i, j in wide['holes']:
        out[q][i][j] = c.real(f'f{q}_{i}_{j}', 0)
    return [[[c.num(v) for v in x] for x in y] for y in out]


def kullback(c, s, r, wide=None):
    F = given(c, s, r, wide) if wide else [c.reals(f'f{q}', (r, r), 0) for q in range(s)]
    tot = c.sum([v for A in F for row in A for v in row])
    c.assume(tot > 0)
    res = c.g.markov.kullback(c.array(F))
    pool = [[c.sum([F[q][i][j] for q in range(s)]) for j in range(r)] for i in range(r)]
    prow = [c.sum(x) for x in pool]
    srow = [[c.sum(F[q][i]) for i in range(r)] for q in range(s)]
    T = []
    for q in range(s):
        for i in range(r):
            for j in range(r):
                if c.fork(F[q][i][j] > 0):
                    f = F[q][i][j]
                    # f ln( f * pooled row / (stratum row * pooled cell) )
                    T.append(2 * f * (c.log(f) + c.log(prow[i]) - c.log(srow[q][i]) - c.log(pool[i][j])))
    want = c.sum(T)
    dof = r * (s - 1) * (r - 1)
    c.check('statistic', c.eq(res['Conditional homogeneity'], want))
    c.check('degrees of freedom', c.eq(res['Conditional homogeneity dof'], dof))
    if dof > 0:
        c.check('p-value', c.eq(res['Conditional homogeneity pvalue'], c.chi2sf(want, dof)))


HARNESSES = [
    dict(name='kullback', fn=kullback, quick=[dict(s=2, r=2), dict(s=3, r=1), dict(s=11, r=3, wide=dict(seed=1, hi=2, holes=[(4, 1, 2)])), dict(s=2, r=11, wide=dict(seed=5, hi=3, holes=[(0, 10, 1)])), dict(s=4, r=4, wide=dict(seed=9, hi=400, holes=[(3, 3, 3)]))], thorough=[dict(s=2, r=2), dict(s=3, r=2), dict(s=1, r=3)]),
]
OUTSIDE = 'more strata or classes than listed; that the statistic is never negative follows from its identity with the information (log-sum inequality); in the larger inputs all but a few cells are fixed values'
