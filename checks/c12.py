"""Tests of a spatial Markov analysis per lag class."""
from .common import table, neighbours
from .spatial import panel, decide, lag, chi2_stat, tables


def per_class(c, rows, graph, cut, lcut, fill=False, summary=True, plain=False):
    c.plain_eig = plain
    rows = table(rows)
    n, t = len(rows), len(rows[0])
    w = c.W({i: list(v) for i, v in enumerate(neighbours(graph))})
    w.transform = 'r'
    y = panel(c, rows)
    k, m = len(cut) + 1, len(lcut) + 1
    cls = decide(c, cut, y)
    lc = decide(c, lcut, lag(c, w, y))
    s = c.g.markov.Spatial_Markov(c.array(y, 'f'), w, cutoffs=c.array(list(cut), 'f'), lag_cutoffs=c.array(list(lcut), 'f'), fill_empty_classes=fill)
    E = tables(c, cls, lc, k, m)
    T = [[c.sum([E[l][i][j] for l in range(m)]) for j in range(k)] for i in range(k)]
    # chi-squared tests
    ch = s.chi2
    c.check('a chi-squared test per lag class', len(ch) == m)
    stat = [chi2_stat(c, E[l], T) for l in range(m)]
    busy = sum(any(int(v) for v in r) for r in T)
    for l in range(m):
        own = sum(any(int(v) for v in r) for r in E[l])
        c.check('chi-squared statistic of the lag class', c.eq(ch[l][0], stat[l]))
        if own:
            c.check('degrees of freedom', c.eq(ch[l][2], (own - 1) * (busy - 1)))
            if own > 1 and busy > 1:
                c.check('p-value', c.eq(ch[l][1], c.chi2sf(stat[l], (own - 1) * (busy - 1))))
    c.check('overall statistic', c.eq(s.x2, c.sum(stat)))
    c.check('overall degrees of freedom', c.eq(s.x2_dof, k * (k - 1) * (k - 1)))
    c.check('overall p-value', c.eq(s.x2_pvalue, c.chi2sf(c.sum(stat), k * (k - 1) * (k - 1))))
    # homogeneity tests are those of the conditional counts
    h = c.g.markov.homogeneity(c.array(E, 'f'))
    for name, v in (('Q', h.Q), ('LR', h.LR), ('dof_hom', h.dof)):
        c.check('homogeneity ' + name, c.eq(getattr(s, name), v))
    if int(h.dof) > 0:
        c.check('homogeneity Q p-value', c.eq(s.Q_p_value, h.Q_p_value))
        c.check('homogeneity LR p-value', c.eq(s.LR_p_value, h.LR_p_value))
    # long run behaviour
    P = [[[c.div(E[l][i][j], sum(int(v) for v in E[l][i])) if any(int(v) for v in E[l][i]) else c.num(1 if fill and i == j else 0)
           for j in range(k)] for i in range(k)] for l in range(m)]
    p = [[c.div(T[i][j], sum(int(v) for v in T[i])) if any(int(v) for v in T[i]) else c.num(1 if fill and i == j else 0)
          for j in range(k)] for i in range(k)]
    ss, mf = c.g.ergodic.steady_state, c.g.ergodic.mfpt
    full = fill or all(any(int(v) for v in r) for r in T)
    if full:
        c.check_eq('overall steady state', s.s, ss(c.array(p, 'f')))
        c.check_eq('overall passage times', s.f, mf(c.array(p, 'f')))
    else:
        c.check('overall steady state needs observations', isinstance(c.raises(lambda: s.s)[0], ValueError))
    if fill or all(any(int(v) for v in r) for l in range(m) for r in E[l]):
        S = [ss(c.array(P[l], 'f')) for l in range(m)]
        F = [mf(c.array(P[l], 'f')) for l in range(m)]
        one = all(len(c.shape(v)) == 1 for v in S)
        if one or len(set(c.shape(v) for v in S)) == len(S):
            for l in range(m):
                c.check_eq('steady state of the lag class', s.S[l], S[l])
        for l in range(m):
            c.check_eq('passage times of the lag class', s.F[l], F[l])
        so = ss(c.array(p, 'f'))
        if one and len(c.shape(so)) == 1:
            o = c.items(so)
            sh = s.shtest
            c.check('a steady state test per lag class', len(sh) == m)
            for l in range(m):
                v = c.items(S[l])
                nt = sum(int(x) for r in E[l] for x in r)
                e = c.sum([nt * (v[i] - o[i]) * (v[i] - o[i]) / o[i] for i in range(k)])
                c.check('steady state test of the lag class', c.eq(sh[l][0], e))
                c.check('p-value of the steady state test', c.eq(sh[l][1], c.chi2sf(e, k - 1)))
                c.check('degrees of freedom of the steady state test', c.eq(sh[l][2], k - 1))
    if summary:
        e, _ = c.raises(lambda: s.summary())
        c.check('the summary can be printed', e is None)


N = None
PATH3 = ((1,), (0, 2), (1,))
PATH4 = ((1,), (0, 2), (1, 3), (2,))
HARNESSES = [
    dict(name='per_class', fn=per_class,
         quick=[dict(rows=((1, 7, N, 2), (8, N, 3, 7), (2, 6, N, 1)), graph=PATH3, cut=(5,), lcut=(5,)),
                dict(rows=((1, 7, N, 2), (8, 2, 3, 7), (2, 6, N, 1)), graph=PATH3, cut=(5,), lcut=(3, 6)),
                dict(rows=((1, 7, N, 2), (8, 2, 3, 7), (2, 6, N, 1)), graph=PATH3, cut=(5,), lcut=(3, 6), fill=True),
                dict(rows=((1, 7, 4, 2), (8, N, 4, 7), (2, 6, N, 1)), graph=PATH3, cut=(3, 6), lcut=(5,), fill=True),
                dict(rows=dict(seed=1, n=16, t=9, hi=9, holes=[(3, 8)]), graph=('rook', 4, 4), cut=(2, 6), lcut=(3, 4, 5, 6), summary=False, plain=True),
                dict(rows=dict(seed=2, n=6, t=3, hi=9, holes=[(5, 1)]), graph=('ring', 6, 1), cut=(0, 1, 2, 3, 4, 5, 6, 7, 8, 20), lcut=(5,), summary=False)],
         thorough=[dict(rows=((1, 7, N, 2), (8, N, 3, 7), (2, N, N, 1)), graph=PATH3, cut=(5,), lcut=(5,)),
                   dict(rows=((1, 7, N, 2, 6), (8, N, 3, 7, N), (2, 6, N, 1, 8)), graph=PATH3, cut=(5,), lcut=(2, 4, 6), fill=True),
                   dict(rows=((1, 7, N, 2), (8, N, 3, 7), (2, 6, N, 1), (7, 2, 8, 3)), graph=PATH4, cut=(3, 6), lcut=(3, 6), fill=True)]),
]
OUTSIDE = 'panels other than the listed ones with their free cells; in the larger inputs all but a few cells are fixed values'
