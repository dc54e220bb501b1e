"""Mean first passage times."""
from .common import matrices, filled, reach_closure, classes_of, sure_hit
from .c01 import panel, expected


def check_mfpt(c, M, Q, A):
    k = len(Q)
    c.check('shape', c.shape(M) == (k, k))
    M = c.items(M)
    for j in range(k):
        sure = sure_hit(A, j)
        back = all(b == j or b in sure for b in range(k) if A[j][b])
        for i in range(k):
            v = M[i][j]
            if i == j:
                fin = back
                lab = 'recurrence time'
            else:
                fin = i in sure
                lab = 'passage time'
            if not fin:
                c.check(lab + ' infinite when not sure to arrive', c.isinf(v) and bool(v > 0))
                continue
            c.check(lab + ' finite when sure to arrive', not c.isinf(v) and not c.isnan(v))
            if c.isinf(v) or c.isnan(v):
                continue
            if any(c.isinf(M[m][j]) or c.isnan(M[m][j]) for m in range(k) if m != j and A[i][m]):
                continue
            c.check(lab + ' first-step equation', c.eq(v, 1 + c.sum([Q[i][m] * M[m][j] for m in range(k) if m != j and A[i][m]])))


def general(c, k, empty=False, ints=False, dtype=None, pos=False, wide=None):
    c.plain_eig = bool(wide)
    P, adj = matrices(c, k, empty, ints, pos=pos, wide=wide)
    a = c.array(P, dtype) if dtype else c.array(P)
    before = c.copy(a)
    has0 = any(not any(r) for r in adj)
    if has0:
        e, _ = c.raises(lambda: c.g.ergodic.mfpt(a))
        c.check('rows without observations are rejected', isinstance(e, ValueError))
    Q, A = filled(c, P, adj)
    e, M = c.raises(lambda: c.g.ergodic.mfpt(a, fill_empty_classes=True))
    c.check('no error', e is None)
    if e is None:
        check_mfpt(c, M, Q, A)
    if not has0:
        e, M = c.raises(lambda: c.g.ergodic.mfpt(a))
        c.check('no error', e is None)
        if e is None:
            check_mfpt(c, M, Q, A)
    c.check_eq('input unchanged', a, before)


def attribute(c, n, t, k):
    x = panel(c, n, t, k)
    T = expected(c, x, list(range(k)))
    adj = [[c.fork(T[i][j] > 0) for j in range(k)] for i in range(k)]
    m = c.g.markov.Markov(c.array(x), classes=c.array(list(range(k))), summary=False)
    P = [[T[i][j] / c.sum(T[i]) if any(adj[i]) else c.num(0) for j in range(k)] for i in range(k)]
    Q, A = filled(c, P, adj)
    check_mfpt(c, m.mfpt, Q, A)


HARNESSES = [
    dict(name='general', fn=general,
         quick=[dict(k=2, empty=True), dict(k=3, empty=True), dict(k=3, empty=True, ints=True), dict(k=2, ints=True, dtype='i'), dict(k=3, ints=True, dtype='i')] + [dict(k=k, wide=dict(seed=s, kind=q)) for k, s, q in ((5, 1, 'dense'), (6, 2, 'ring'), (12, 3, 'blocks'), (7, 4, 'empty'), (11, 5, 'moves'))],
         thorough=[dict(k=2, empty=True), dict(k=3, empty=True), dict(k=4, empty=True, ints=True), dict(k=4, pos=True)]),
    dict(name='attribute', fn=attribute, quick=[dict(n=2, t=2, k=2), dict(n=2, t=2, k=3)],
         thorough=[dict(n=2, t=3, k=3), dict(n=3, t=2, k=3)]),
]
ASSUMPTIONS = 'quantecon supplies the communicating classes and numpy the dominant eigenvector: their documented results are used; linear systems are solved exactly'
OUTSIDE = 'more states than listed; rounding; in the larger inputs all but a few cells are fixed values'
