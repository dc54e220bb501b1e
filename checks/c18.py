"""Spill-over of LISA clusters."""
from .c16 import data
from .common import table, neighbours


def union(n, edges):
    g = list(range(n))
    for a, b in edges:
        ga, gb = g[a], g[b]
        if ga != gb:
            g = [ga if x == gb else x for x in g]
    inside = {v for e in edges for v in e}
    return [g[i] if i in inside else None for i in range(n)]


def spill(c, graph, t, quadrant=1, second=False, ids=None, other=(), alpha=None, pz=None, holes=()):
    """other: (unit, period) pairs whose quadrant is arbitrary; elsewhere it is the chosen one"""
    graph = neighbours(graph)
    n = len(graph)
    if pz is not None:
        # mostly fixed p-values, in hundredths
        c.fixed_pz = table(dict(seed=pz, n=t, t=n, hi=9, holes=[(s, i) for i, s in holes]))
    ids = ids or list(range(n))
    w = c.W({ids[i]: [ids[j] for j in v] for i, v in enumerate(graph)}, ids)
    other = [tuple(o) for o in other]
    q = [[c.fd(f'moran_q{s}_{i}', 1, 4) if (i, s) in other else c.fd(f'moran_q{s}_{i}', quadrant, quadrant) for s in range(t)] for i in range(n)]
    m = c.g.markov.LISA_Markov(c.array(data(c, n, t), 'f'), w, permutations=9, significance_level=alpha or 0.05)
    sig = [[c.fork(c.and_(q[i][s] == quadrant, m.p_values[i, s] <= m.significance_level)) for s in range(t)] for i in range(n)]
    r = m.spillover(quadrant=quadrant, neighbors_on=second)
    comp, over = c.items(r['components']), c.items(r['spill_over'])
    c.check('shape', c.shape(r['components']) == (n, t) and c.shape(r['spill_over']) == (n, t - 1))
    cl = []
    for s in range(t):
        edges = []
        for i in range(n):
            if sig[i][s]:
                for j in graph[i]:
                    edges.append((i, j))
                    if second:
                        edges += [(j, x) for x in graph[j]]
        cl.append(union(n, edges))
    for s in range(t):
        for i in range(n):
            c.check('clustered units have a component', c.eq(comp[i][s], 0) if cl[s][i] is None else c.not_(c.eq(comp[i][s], 0)))
            for j in range(i):
                if cl[s][i] is not None and cl[s][j] is not None:
                    same = c.eq(comp[i][s], comp[j][s])
                    c.check('components are the linked clusters', same if cl[s][i] == cl[s][j] else c.not_(same))
    for s in range(t - 1):
        for i in range(n):
            hit = cl[s][i] is None and cl[s + 1][i] is not None and any(
                cl[s][j] is not None and cl[s + 1][j] == cl[s + 1][i] for j in range(n))
            c.check('spill-over', c.eq(over[i][s], int(hit)))


def without(c, n):
    """no significance, no spill-over"""
    w = c.W({0: [1], 1: [0]})
    m = c.g.markov.LISA_Markov(c.array(data(c, 2, 2), 'f'), w)
    c.value(m.q[0, 0])
    c.check('no permutations', m.spillover() is None)


PATH4 = ((1,), (0, 2), (1, 3), (2,))
STAR = ((1, 2, 3), (0,), (0,), (0,))
PAIRS = ((1,), (0,), (3,), (2,))
PATH5 = ((1,), (0, 2), (1, 3), (2, 4), (3,))
ONEWAY = ((1,), (2,), (3,), (2,))
PATH3 = ((1,), (0, 2), (1,))
SQ = ((1, 2), (0, 3), (0, 3), (1, 2))
PATH6 = ((1,), (0, 2), (1, 3), (2, 4), (3, 5), (4,))
HARNESSES = [
    dict(name='spill', fn=spill,
         quick=[dict(graph=PATH4, t=2), dict(graph=PAIRS, t=2), dict(graph=ONEWAY, t=2, quadrant=3), dict(graph=PATH3, t=2, ids=['c', 'a', 'b'], other=[(0, 0), (1, 1)], quadrant=2),
                dict(graph=PATH4, t=2, second=True), dict(graph=((1,), (0,)), t=3, alpha=0.25),
                dict(graph=('rook', 4, 5), t=12, pz=4, holes=[(3, 5), (17, 8)], alpha=0.035), dict(graph=('path', 60), t=2, pz=5, holes=[(30, 1)], alpha=0.065), dict(graph=('rook', 4, 4), t=3, pz=7, holes=[(3, 1)], alpha=0.015, second=True, quadrant=2)],
         thorough=[dict(graph=PATH5, t=2), dict(graph=PATH5, t=2, second=True), dict(graph=STAR, t=2), dict(graph=SQ, t=2, second=True), dict(graph=PATH3, t=3, quadrant=4),
                   dict(graph=ONEWAY, t=2, second=True), dict(graph=PATH4, t=2, ids=['d', 'a', 'c', 'b'], other=[(0, 0), (1, 1), (3, 0)], quadrant=3), dict(graph=PATH4, t=3), dict(graph=PATH6, t=2)]),
    dict(name='without', fn=without, quick=[dict(n=2)], thorough=[dict(n=2)]),
]
ASSUMPTIONS = 'quadrants and p-values are arbitrary'
OUTSIDE = 'significant units without any neighbour; neighbour graphs, units and periods beyond those listed; in the larger inputs all but a few cells are fixed values'
