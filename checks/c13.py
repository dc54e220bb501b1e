"""Chi-squared comparison of transition matrices."""
from .common import table


def given(c, spec, name):
    return [[c.real(f'{name}_{i}_{j}', 0) if v is None else c.num(v) for j, v in enumerate(r)] for i, r in enumerate(table(spec))]


def chi2(c, r, k, kind, A=None, B=None):
    c.fractions()
    T1 = given(c, A, 'a') if A else c.ints('a', (r, k), 0, relaxed=True) if kind[0] == 'i' else c.reals('a', (r, k), 0)
    T2 = given(c, B, 'b') if B else c.ints('b', (r, k), 0, relaxed=True) if kind[1] == 'i' else c.reals('b', (r, k), 0)
    for row in T2:
        for v in row:
            c.fork(v > 0)
    stat, pv, dof = c.g.markov.chi2(c.array(T1), c.array(T2))
    e = []
    n1 = n2 = 0
    for i in range(r):
        s1, s2 = c.sum(T1[i]), c.sum(T2[i])
        z1, z2 = c.fork(s1 > 0), c.fork(s2 > 0)
        n1 += z1
        n2 += z2
        for j in range(k):
            if z1 and z2 and c.fork(T2[i][j] > 0):
                ex = s1 * T2[i][j] / s2
                e.append((T1[i][j] - ex) * (T1[i][j] - ex) / ex)
            else:
                e.append(T1[i][j] * T1[i][j])
    want = c.sum(e)
    c.check('statistic', c.eq(stat, want))
    d = (n1 - 1) * (n2 - 1)
    c.check('degrees of freedom', c.eq(dof, d))
    if d > 0:
        c.check('p-value', c.eq(pv, c.chi2sf(want, d)))


HARNESSES = [
    dict(name='chi2', fn=chi2,
         quick=[dict(r=2, k=2, kind='ff'), dict(r=2, k=2, kind='ii'), dict(r=3, k=2, kind='ff'), dict(r=2, k=3, kind='if'), dict(r=1, k=2, kind='ff'),
                dict(r=12, k=12, kind='ff', A=dict(seed=1, n=12, t=12, hi=3, holes=[(3, 4)]), B=dict(seed=2, n=12, t=12, hi=2, holes=[(11, 0)])),
                dict(r=4, k=4, kind='ff', A=dict(seed=1, n=4, t=4, hi=900, holes=[(1, 3)]), B=dict(seed=2, n=4, t=4, hi=1, holes=[(2, 0)]))],
         thorough=[dict(r=2, k=2, kind='ii'), dict(r=3, k=3, kind='ff'), dict(r=4, k=2, kind='ff'), dict(r=2, k=4, kind='fi')]),
]
OUTSIDE = 'larger matrices; the p-value for zero degrees of freedom; in the larger inputs all but a few cells are fixed values'
