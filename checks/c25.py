"""Permutation inference for rank statistics."""
from .common import pairs, vec
from .c21 import series, decide, counts, make, same
from .c22 import weights, PATH3, PATH4, STAR, hood
from .c23 import signs


def begin(c, x, y, kx, ky, fixed=None):
    c.scripted = fixed
    x, y = vec(x), vec(y)
    n = len(x)
    vx, vy = series(c, 'x', n, kx != 'f', x), series(c, 'y', n, ky != 'f', y)
    sx, sy = decide(c, vx), decide(c, vy)
    return n, make(c, vx, kx), make(c, vy, ky), vx, vy, sx, sy


def kept(c, a, b, vx, vy):
    c.check_eq('x unchanged', a, vx)
    c.check_eq('y unchanged', b, vy)


def spatial(c, x, y, perms, graph, kx='f', ky='f', fixed=None, ids=None):
    n, a, b, vx, vy, sx, sy = begin(c, x, y, kx, ky, fixed)
    w = weights(c, n, graph, ids)
    t = c.g.rank.SpatialTau(a, b, w, permutations=perms)
    nbs = hood(w)
    joins = [(i, j) for i, j in pairs(n) if j in nbs[i]]

    def stat(p):
        con, dis, ux, uy = counts({q: sx[p[q[0]], p[q[1]]] for q in joins}, {q: sy[p[q[0]], p[q[1]]] for q in joins}, joins)
        return (con - dis, ux * uy)
    num, den = stat(list(range(n)))
    c.assume(den > 0)
    c.check('observed', c.eq(t.tau_spatial, c.div(num, c.sqrt(c.num(den)))))
    c.check('one draw per permutation', len(c.draws) == perms)
    larger = 0
    for r in range(perms):
        sn, sd = stat(c.draws[r])
        if sd:
            c.check('simulated value', c.eq(t.taus[r], c.div(sn, c.sqrt(c.num(sd)))))
            # sn/sqrt(sd) >= num/sqrt(den), from the signs and squares
            up = sn >= 0 and (num <= 0 or sn * sn * den >= num * num * sd) or sn < 0 and num < 0 and sn * sn * den <= num * num * sd
            if c.sym is False and abs(sn / sd ** .5 - num / den ** .5) < 1e-9 and sd != den:
                up = bool(t.taus[r] >= t.tau_spatial)       # equal up to rounding
            larger += bool(up)
        else:
            c.check('simulated value', c.isnan(t.taus[r]))
    p = larger + 1
    if 2 * p > perms + 1:
        p = perms - larger + 1
    c.check('pseudo p-value', c.eq(t.tau_spatial_psim, c.div(p, perms + 1)))
    kept(c, a, b, vx, vy)


def tails(sim, obs):
    """from (numerator, denominator) pairs"""
    ge = sum(s * obs[1] >= obs[0] * d for s, d in sim)
    le = sum(s * obs[1] <= obs[0] * d for s, d in sim)
    return ge, le


def neighbour(c, x, y, perms, graph, kx='f', ky='f', fixed=None, ids=None):
    n, a, b, vx, vy, sx, sy = begin(c, x, y, kx, ky, fixed)
    S = signs(sx, sy, n)
    w = weights(c, n, graph, ids)
    t = c.g.rank.Tau_Local_Neighbor(a, b, w, permutations=perms)
    c.check('draws', len(c.draws) == n * perms)
    d = 0
    for i in range(n):
        nb = hood(w)[i]
        obs = (sum(S[i][j] for j in nb), len(nb))
        c.check('observed', c.eq(t.tau_ln[i], c.div(*obs)))
        rest = [j for j in range(n) if j != i]
        sim = []
        for r in range(perms):
            at = {i: i}
            at.update({rest[q]: rest[v] for q, v in enumerate(c.draws[d])})
            d += 1
            sim.append((sum(S[i][at[j]] for j in nb), len(nb)))
            c.check('simulated value', c.eq(t.tau_ln_sim[i, r], c.div(*sim[-1])))
        c.check('pseudo p-value', c.eq(t.tau_ln_pvalues[i], c.div(min(tails(sim, obs)) + 1, perms + 1)))
    kept(c, a, b, vx, vy)


def neighbourhood(c, x, y, perms, graph, kx='f', ky='f', fixed=None, ids=None):
    n, a, b, vx, vy, sx, sy = begin(c, x, y, kx, ky, fixed)
    S = signs(sx, sy, n)
    w = weights(c, n, graph, ids)
    t = c.g.rank.Tau_Local_Neighborhood(a, b, w, permutations=perms)
    c.check('draws', len(c.draws) == n * perms)

    def stat(g):
        ps = [(p, q) for p in g for q in g if p < q]
        return (sum(S[p][q] for p, q in ps), len(ps))
    d = 0
    for i in range(n):
        nb = hood(w)[i]
        obs = stat([i] + nb)
        c.check('observed', c.eq(t.tau_lnhood[i], c.div(*obs)))
        rest = [j for j in range(n) if j != i]
        sim = []
        for r in range(perms):
            rest = [rest[v] for v in c.draws[d]]
            d += 1
            sim.append(stat([i] + rest[:len(nb)]))
            c.check('simulated value', c.eq(t.tau_lnhood_sim[i, r], c.div(*sim[-1])))
        c.check('pseudo p-value', c.eq(t.tau_lnhood_pvalues[i], c.div(min(tails(sim, obs)) + 1, perms + 1)))
    kept(c, a, b, vx, vy)


def regional(c, x, y, perms, regime, kx='f', ky='f', fixed=None, ids=None):
    n, a, b, vx, vy, sx, sy = begin(c, x, y, kx, ky, fixed)
    S = signs(sx, sy, n)
    regime = vec(regime)
    reg = c.np.array(list(regime))
    t = c.g.rank.Tau_Regional(a, b, reg, permutations=perms)
    c.check('draws', len(c.draws) == perms)
    ur = sorted(set(regime))

    def stat(at, u, v):
        ps = [(i, j) for i in range(n) for j in range(n) if i != j and regime[i] == u and regime[j] == v]
        return (sum(S[at[i]][at[j]] for i, j in ps), len(ps))
    at = list(range(n))
    ats = []
    for r in range(perms):
        at = [at[v] for v in c.draws[r]]
        ats.append(at)
    for p, u in enumerate(ur):
        for q, v in enumerate(ur):
            obs = stat(list(range(n)), u, v)
            if not obs[1]:
                continue
            c.check('observed', c.eq(t.tau_reg[p, q], c.div(*obs)))
            sim = [stat(m, u, v) for m in ats]
            for r in range(perms):
                c.check('simulated value', c.eq(t.tau_reg_sim[r, p, q], c.div(*sim[r])))
            c.check('pseudo p-value', c.eq(t.tau_reg_pvalues[p, q], c.div(min(tails(sim, obs)) + 1, perms + 1)))
    kept(c, a, b, vx, vy)


F = [1.5, 2.25, None]
HARNESSES = [
    dict(name='spatial', fn=spatial, quick=[dict(x=[1, 2.5, None], y=[2, None, 1], perms=1, graph=PATH3), dict(x=[1, 3, 2], y=[2, 2, None], perms=2, graph=PATH3, ky='i'), dict(x=[1, 3, 2, 4], y=[2, 1, 3, 4], perms=2, graph=PATH4), dict(x=[1, 3, 2, 4], y=[2, 1, 3, None], perms=1, graph=PATH4, ids=['d', 'a', 'c', 'b']),
                                               dict(x=dict(seed=1, n=20, hi=9, holes=[4]), y=dict(seed=2, n=20, hi=30), perms=120, graph=('some', 20, 1), fixed=3)],
         thorough=[dict(x=[1, 2.5, None], y=[2, None, 1], perms=2, graph=PATH3), dict(x=[1, 3, 2, 4], y=[2, 1, 1, None], perms=2, graph=STAR), dict(x=[1, 3, 2], y=[2, None, 1], perms=3, graph=PATH3)]),
    dict(name='neighbour', fn=neighbour, quick=[dict(x=[1.5, 1.25, None], y=[2, None, 1], perms=2, graph=PATH3, ky='i'), dict(x=[1, None, 3], y=[0.5, 0.25, 0.75], perms=2, graph=PATH3, kx='i'), dict(x=[1.5, 1.25, 1.75, 1], y=[2, 2, 1, 3], perms=1, graph=STAR, ky='i'), dict(x=[3, 2, None], y=[2, 1, 3], perms=3, graph=PATH3), dict(x=[3, 2, None], y=[2, 1, 3], perms=1, graph=PATH3, ids=[2, 0, 1]),
                                                   dict(x=dict(seed=1, n=12, hi=9, holes=[4]), y=dict(seed=2, n=12, hi=30), perms=110, graph=('some', 12, 1), fixed=3)],
         thorough=[dict(x=[1.5, None, None], y=[2, None, 1], perms=3, graph=PATH3, ky='i'), dict(x=[1.5, 1.25, 1.75, None], y=[2, 2, 1, 3], perms=1, graph=PATH4, ky='list')]),
    dict(name='neighbourhood', fn=neighbourhood, quick=[dict(x=[1.5, 1.25, None], y=[2, None, 1], perms=2, graph=PATH3, ky='i'), dict(x=[1.5, 1.25, 1.75, 1], y=[2, 2, 1, 3], perms=1, graph=PATH4, ky='list'), dict(x=[1.5, 1.25, None], y=[2, 2, 1], perms=1, graph=PATH3, ids=['w', 'c', 'x']),
                                                           dict(x=dict(seed=1, n=12, hi=9, holes=[4]), y=dict(seed=2, n=12, hi=30), perms=110, graph=('rook', 3, 4), fixed=3)],
         thorough=[dict(x=[1.5, None, None], y=[2, None, 1], perms=3, graph=PATH3, ky='i'), dict(x=[1.5, 1.25, 1.75, None], y=[2, 2, 1, 3], perms=1, graph=STAR)]),
    dict(name='regional', fn=regional, quick=[dict(x=[1.5, 1.25, None], y=[2, None, 1], perms=2, regime=[4, 2, 4], ky='i'), dict(x=[1, 2.5, 3, 2], y=[3, 1, 2, None], perms=1, regime=['b', 'a', 'a', 'b']),
                                                 dict(x=dict(seed=1, n=10, hi=9, holes=[4]), y=dict(seed=2, n=10, hi=30), perms=110, regime=dict(seed=5, n=10, hi=2), fixed=3)],
         thorough=[dict(x=[1, 2.5, 3, 2], y=[3, 1, 2, None], perms=2, regime=['b', 'a', 'a', 'b']), dict(x=[1.5, None, 1.25], y=[2, None, 1], perms=3, regime=[4, 2, 4])]),
]
ASSUMPTIONS = 'every random permutation is arbitrary and recorded'
OUTSIDE = 'more permutations, units or free values than listed; in the larger inputs all but a few cells are fixed values'
