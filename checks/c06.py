"""Variances of first passage times."""
from .common import matrices


def variance(c, k, pos=False, ints=False, wide=None):
    P, adj = matrices(c, k, ints=ints, irreducible=True, pos=pos, wide=wide)
    a = c.array(P)
    V = c.items(c.g.ergodic.var_mfpt_ergodic(a))
    M = c.items(c.g.ergodic.mfpt(a))
    for i in range(k):
        for j in range(k):
            # second moments: S_ij = 1 + sum over m != j of p_im (S_mj + 2 M_mj)
            S = [V[m][j] + M[m][j] * M[m][j] for m in range(k)]
            c.check('second moment equation', c.eq(S[i], 1 + c.sum([P[i][m] * (S[m] + 2 * M[m][j]) for m in range(k) if m != j and adj[i][m]])))
            if k == 2:
                c.check('not negative', V[i][j] >= 0)


HARNESSES = [
    dict(name='variance', fn=variance, quick=[dict(k=2), dict(k=3), dict(k=3, ints=True), dict(k=6, wide=dict(seed=1)), dict(k=6, wide=dict(seed=2, kind='ring'))], thorough=[dict(k=2), dict(k=3), dict(k=4, ints=True), dict(k=4, pos=True)]),
]
ASSUMPTIONS = 'numpy supplies the dominant eigenvector; linear systems are solved exactly'
OUTSIDE = 'more states than listed; rounding; chains that are not ergodic; in the larger inputs all but a few cells are fixed values'
