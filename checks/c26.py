"""Regime cohesion of rank changes."""
from .common import table, vec
from .c21 import decide


def ranks(c, y):
    """average ranks of every period in halves, known on this path"""
    n, t = len(y), len(y[0])
    out = [[0] * t for _ in range(n)]
    for s in range(t):
        d = decide(c, [r[s] for r in y])
        for i in range(n):
            out[i][s] = 2 + 2 * sum(j != i and d[j, i] > 0 for j in range(n)) + sum(j != i and d[j, i] == 0 for j in range(n))
    return out          # twice the rank


def theta(c, y, regime, perms, fixed=None):
    c.scripted = fixed
    y, regime = table(y), vec(regime)
    n, t = len(y), len(y[0])
    v = [[c.num(q) if q is not None else c.real(f'y_{i}_{s}', -9, 9) for s, q in enumerate(r)] for i, r in enumerate(y)]
    R = ranks(c, v)
    a = c.array(v, 'f')
    reg = c.np.array(list(regime))
    total = [sum(abs(R[i][s + 1] - R[i][s]) for i in range(n)) for s in range(t - 1)]
    c.assume(all(total))
    m = c.g.rank.Theta(a, reg, perms)
    ur = sorted(set(regime))
    c.check_eq('ranks', m.ranks, [[c.div(x, 2) for x in r] for r in R])
    c.check_eq('total', m.total, [c.div(x, 2) for x in total])
    c.check('largest total', c.eq(m.max_total, sum(abs(2 * i - n - 1) for i in range(1, n + 1))))

    def stat(r):
        return [(sum(abs(sum(R[i][s + 1] - R[i][s] for i in range(n) if r[i] == u)) for u in ur), total[s]) for s in range(t - 1)]
    obs = stat(list(regime))
    got = c.items(m.theta)
    if perms:
        c.check('shape', len(got) == 1 and len(got[0]) == t - 1)
        got = got[0]
    for s in range(t - 1):
        c.check('theta', c.eq(got[s], c.div(*obs[s])))
        c.check('between 0 and 1', c.and_(got[s] >= 0, got[s] <= 1))
    if perms:
        c.check('draws', len(c.draws) == perms)
        sim = [obs] + [stat([regime[q] for q in d]) for d in c.draws]
        c.check_eq('simulated values', m.sim, [[c.div(*x) for x in r] for r in sim])
        for s in range(t - 1):
            low = sum(r[s][0] <= obs[s][0] for r in sim)
            c.check('left p-value', c.eq(m.pvalue_left[s], c.div(low, perms + 1)))
            c.check('right p-value', c.eq(m.pvalue_right[s], c.div(perms + 1 - low, perms + 1)))
    c.check_eq('regimes unchanged', reg, list(regime)) if not isinstance(regime[0], str) else None
    c.check_eq('values unchanged', a, v)


N = None
HARNESSES = [
    dict(name='theta', fn=theta,
         quick=[dict(y=[[N, 2], [N, 1], [N, 1]], regime=[0, 1, 0], perms=0), dict(y=[[1, N, 1], [2, N, 2], [3, N, 2], [4, 2, 5]], regime=['b', 'a', 'b', 'a'], perms=0),
                dict(y=[[1, N], [2, N], [3, 1]], regime=[5, 3, 5], perms=2), dict(y=[[1, 3, 2], [2, N, 2], [3, 1, N]], regime=[1, 2, 3], perms=1), dict(y=[[1, 4], [2, N], [3, 2], [4, 3]], regime=[0, 0, 1, 1], perms=1),
                dict(y=dict(seed=1, n=30, t=12, hi=20, holes=[(3, 5)]), regime=dict(seed=2, n=30, hi=11), perms=0), dict(y=dict(seed=3, n=12, t=4, hi=20, plus=1 << 24, holes=[(3, 2)]), regime=dict(seed=2, n=12, hi=3), perms=0), dict(y=dict(seed=1, n=16, t=4, hi=20, holes=[(3, 2)]), regime=dict(seed=2, n=16, hi=4), perms=130, fixed=1)],
         thorough=[dict(y=[[N, N], [N, N], [N, 1]], regime=[0, 1, 0], perms=0), dict(y=[[1, N], [2, N], [3, N], [4, N]], regime=[0, 1, 1, 0], perms=1), dict(y=[[1, N], [2, N], [3, 1]], regime=[5, 3, 5], perms=3),
                   dict(y=[[1, N], [2, N], [3, N], [4, N]], regime=[0, 1, 2, 0], perms=0), dict(y=[[1, N], [2, N], [3, 4], [4, N], [5, 2]], regime=[0, 1, 1, 0, 0], perms=0)]),
]
ASSUMPTIONS = 'every random permutation is arbitrary and recorded; there is some rank change in every period'
OUTSIDE = 'more units, periods or permutations than listed; in the larger inputs all but a few cells are fixed values'
