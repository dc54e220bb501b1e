"""Rose permutation inference."""
from .c22 import weights, PATH3, PATH4
from .c29 import panel, members, lagged


def permute(c, n, k, graph, calls, rows, row=True, fixed=None, ids=None):
    """calls: (permutations, alternative) of successive calls"""
    c.scripted = fixed
    w = weights(c, n, graph, ids)
    if row:
        w.transform = 'r'
    y, L, dx, dy = panel(c, n, 2, rows, w)
    a = c.array(y, 'f')
    r = c.g.directional.Rose(a, w, k=k)

    def counts(order):
        z = [y[i] for i in order]
        G = [lagged(c, w, z, i) for i in range(n)]
        m = [members(c, k, v[-1] - v[0], g[-1] - g[0]) for v, g in zip(z, G)]
        # decided here: the inference then counts known numbers
        m = [[c.fork(x) for x in q] for q in m]
        return [sum(q[s] for q in m) for s in range(k)]
    obs = counts(range(n))
    last = list(range(n))
    for perms, alt in calls:
        d0 = len(c.draws)
        if alt is None:
            r.permute(perms)
            alt = 'two.sided'
        else:
            r.permute(perms, alt) if len(alt) % 2 else r.permute(permutations=perms, alternative=alt)
        c.check('one draw per permutation', len(c.draws) == d0 + perms)
        idx = list(range(n))
        sim = []
        for q in range(perms):
            idx = [idx[v] for v in c.draws[d0 + q]]
            sim.append((counts([last[v] for v in idx]), counts(idx)))
        # a later call may start from the order the call before left
        start = 0 if c.fork(c.all_([c.eq(r.counts_perm[q, s], sim[q][0][s]) for q in range(perms) for s in range(k)])) else 1
        sim = [v[start] for v in sim]
        if start == 0:
            last = [last[v] for v in idx]
        c.check_eq('permuted counts', r.counts_perm, sim)
        up = [sum(v[s] >= obs[s] for v in sim) for s in range(k)]
        lo = [sum(v[s] <= obs[s] for v in sim) for s in range(k)]
        c.check_eq('as large', r.larger_perm, up)
        c.check_eq('as small', r.smaller_perm, lo)
        c.check_eq('expected', r.expected_perm, [c.div(sum(v[s] for v in sim), perms) for s in range(k)])
        p = []
        for s in range(k):
            if alt.lower().startswith('two'):
                p.append(c.div(2 * (up[s] + 1), perms + 1) if 2 * (up[s] + 1) < perms + 1 else 2 - c.div(2 * (up[s] + 1), perms + 1))
            else:
                joint = (s * 4 // k) % 2 == 0
                p.append(c.div((up if joint == (alt.lower() == 'positive') else lo)[s] + 1, perms + 1))
        c.check_eq('p-values', r.p, p)
        # the observed rose
        c.check_eq('values kept', r.Y, y)
        c.check_eq('lags kept', r.lag, L)
        c.check_eq('lags of the values kept', r.wY, L)
        c.check_eq('counts kept', r.counts, obs)
        for i in range(n):
            c.check('lengths kept', c.eq(r.r[i], c.sqrt(dx[i] * dx[i] + dy[i] * dy[i])))
            c.check('angles kept', c.eq(r.theta[i], c.arctan2(dy[i], dx[i])))
        c.check_eq('data unchanged', a, y)
    w2 = weights(c, n, graph, ids) if graph is not None else None
    if w2 is not None:
        c.check('weights unchanged', all(list(w.neighbors[i]) == list(w2.neighbors[i]) for i in w2.id_order))


N = None
R3 = [[0, N], [1, -1], [2, 3]]
R4 = [[0, N], [1, -1], [2, 3], [0, 1]]
ALT = [(1, None), (1, 'two.sided'), (1, 'positive'), (1, 'negative')]
HARNESSES = [
    dict(name='permute', fn=permute,
         quick=[dict(n=3, k=4, graph=PATH3, rows=[[0, N], [0, N], [0, 2]], calls=[(1, a)]) for a in (None, 'positive')] + [dict(n=3, k=8, graph=PATH3, rows=[[0, N], [0, 3], [0, -2]], calls=[(1, a)]) for a in ('positive', 'negative')]
         + [dict(n=3, k=4, graph=PATH3, rows=[[0, 3], [1, -1], [2, 3]], calls=[(2, 'two.sided')]), dict(n=3, k=8, graph=PATH3, rows=[[0, 2], [1, -1], [2, 3]], calls=[(1, None), (1, 'POSITIVE')]), dict(n=3, k=4, graph=PATH3, rows=[[3, N], [1, -1], [2, 2]], calls=[(1, 'Negative'), (1, 'two-sided')]),
            dict(n=3, k=4, graph=PATH3, ids=[2, 0, 1], rows=[[0, N], [1, -1], [2, 3]], calls=[(1, None)]), dict(n=3, k=4, graph=PATH3, rows=[[3, 1], [1, -1], [2, 2]], calls=[(3, 'two-sided')]), dict(n=3, k=8, graph=PATH3, rows=[[3, 4], [1, -1], [2, 9]], calls=[(3, 'positive')]), dict(n=3, k=3, graph=PATH3, rows=[[0, 1], [0, 3], [0, 2]], calls=[(1, None), (1, None)]),
            dict(n=3, k=4, graph=PATH3, rows=[[0, N], [1, -1], [2, 3]], calls=[(99, None), (12, 'positive')], fixed=4), dict(n=7, k=4, graph=('ring', 7, 1), rows=dict(seed=7, n=7, t=2, hi=30, holes=[(2, 1)]), calls=[(1, 'negative'), (1, 'two.sided')], fixed=4)],
         thorough=[dict(n=3, k=8, graph=PATH3, rows=[[0, N], [0, N], [0, 2]], calls=[(1, a)]) for a in (None, 'positive', 'negative')] + [dict(n=3, k=k, graph=PATH3, rows=[[0, N], [0, N], [0, N]], calls=[(1, a)]) for k in (4, 8) for a in (None, 'positive', 'negative')]
         + [dict(n=3, k=k, graph=PATH3, rows=R3, calls=[(1, None), (1, 'positive')]) for k in (4, 8)] + [dict(n=3, k=k, graph=PATH3, rows=[[0, 2], [1, -1], [2, 3]], calls=[(2, a), (1, None)]) for k in (4, 8) for a in ('positive', 'negative')] + [dict(n=4, k=8, graph=PATH4, rows=R4, calls=[(1, 'positive')]), dict(n=4, k=4, graph=PATH4, rows=R4, calls=[(1, None)])]),
]
OUTSIDE = 'more permutations, units or calls than listed; one-sided tests with sectors other than 4 or 8 (refused by the package); the recorded two-sided rule is taken as documented; in the larger inputs all but a few cells are fixed values'
