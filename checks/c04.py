"""Steady state distributions."""
from .common import matrices, filled, reach_closure, classes_of
from .c01 import panel, expected


def check_ss(c, ss, Q, A):
    k = len(Q)
    cls, rec = classes_of(reach_closure(A))
    rec = sorted(rec)
    if len(cls) == 1:
        c.check('a single vector for a single class', c.shape(ss) == (k,))
        rows = [c.items(ss)]
    else:
        c.check('one distribution per recurrent class', c.shape(ss) == (len(rec), k))
        rows = c.items(ss)
    # supports are decided by the graph, so every row can be matched to its class
    left = list(rec)
    for v in rows:
        c.check('sums to one', c.eq(c.sum(v), 1))
        hit = None
        for g in left:
            if c.fork(v[g[0]] > 0):
                hit = g
                break
        c.check('belongs to one recurrent class', hit is not None)
        if hit is None:
            continue
        left.remove(hit)
        for j in range(k):
            c.check('not negative', v[j] >= 0)
            if j in hit:
                c.check('positive on its class', v[j] > 0)
            else:
                c.check('zero off its class', c.eq(v[j], 0))
            c.check('invariant', c.eq(c.sum([v[i] * Q[i][j] for i in range(k)]), v[j]))
    c.check('every recurrent class has a distribution', not left)


def general(c, k, empty=False, ints=False, pos=False, wide=None):
    c.plain_eig = bool(wide)
    P, adj = matrices(c, k, empty, ints, pos=pos, wide=wide)
    a = c.array(P)
    before = c.copy(a)
    has0 = any(not any(r) for r in adj)
    if has0:
        e, _ = c.raises(lambda: c.g.ergodic.steady_state(a))
        c.check('rows without observations are rejected', isinstance(e, ValueError))
        e, _ = c.raises(lambda: c.g.ergodic.steady_state(a, False))
        c.check('rows without observations are rejected', isinstance(e, ValueError))
    Q, A = filled(c, P, adj)
    check_ss(c, c.g.ergodic.steady_state(a, fill_empty_classes=True), Q, A)
    if not has0:
        check_ss(c, c.g.ergodic.steady_state(a), Q, A)
    c.check_eq('input unchanged', a, before)


def ergodic(c, k, pos, wide=None):
    """the helper used by the first passage time functions, on irreducible chains"""
    P, adj = matrices(c, k, irreducible=True, pos=pos, wide=wide)
    v = c.items(c.g.ergodic._steady_state_ergodic(c.array(P)))
    c.check('sums to one', c.eq(c.sum(v), 1))
    for j in range(k):
        c.check('positive', v[j] > 0)
        c.check('invariant', c.eq(c.sum([v[i] * P[i][j] for i in range(k)]), v[j]))


def attribute(c, n, t, k, fill):
    """the steady state of an estimated chain"""
    x = panel(c, n, t, k)
    T = expected(c, x, list(range(k)))
    adj = [[c.fork(T[i][j] > 0) for j in range(k)] for i in range(k)]
    m = c.g.markov.Markov(c.array(x), classes=c.array(list(range(k))), fill_empty_classes=fill, summary=False)
    P = [[T[i][j] / c.sum(T[i]) if any(adj[i]) else c.num(0) for j in range(k)] for i in range(k)]
    Q, A = filled(c, P, adj)
    check_ss(c, m.steady_state, Q, A)


HARNESSES = [
    dict(name='general', fn=general,
         quick=[dict(k=2, empty=True), dict(k=3, empty=True), dict(k=3, empty=True, ints=True)] + [dict(k=k, wide=dict(seed=s, kind=q)) for k, s, q in ((7, 1, 'dense'), (12, 2, 'ring'), (10, 3, 'blocks'), (8, 4, 'empty'), (11, 5, 'moves'))],
         thorough=[dict(k=2, empty=True), dict(k=3, empty=True), dict(k=4, empty=True, ints=True), dict(k=4, pos=True)]),
    dict(name='ergodic', fn=ergodic, quick=[dict(k=2, pos=False), dict(k=3, pos=False), dict(k=8, pos=False, wide=dict(seed=6)), dict(k=11, pos=False, wide=dict(seed=7, kind='ring'))], thorough=[dict(k=4, pos=True)]),
    dict(name='attribute', fn=attribute, quick=[dict(n=2, t=2, k=2, fill=False), dict(n=1, t=4, k=3, fill=True), dict(n=2, t=2, k=3, fill=False)],
         thorough=[dict(n=2, t=3, k=3, fill=False), dict(n=3, t=2, k=3, fill=True)]),
]
ASSUMPTIONS = 'quantecon supplies the classes and stationary distributions and numpy the dominant eigenvector: their documented results are used'
OUTSIDE = 'more states than listed; rounding; in the larger inputs all but a few cells are fixed values'
