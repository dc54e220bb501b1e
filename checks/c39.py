"""Connected components of a graph under a condition on its edge weights."""
import operator
from .common import neighbours, stream


def groups(n, linked):
    """components of nodes 0..n-1, as a set of sorted tuples"""
    comp = list(range(n))
    for i in range(n):
        for j in range(n):
            if linked[i][j]:
                a, b = comp[i], comp[j]
                comp = [a if q == b else q for q in comp]
    return {tuple(i for i in range(n) if comp[i] == q) for q in comp}


OPS = dict(lt=operator.lt, gt=operator.gt, ge=operator.ge, eq=operator.eq)


def build(c, n, names, undirected=True, single=None, weights=None, twice=False, wide=None):
    """graph of arbitrary edges and weights; pairs that share an edge, weight of each"""
    G = c.g.components.Graph(undirected) if not undirected else c.g.components.Graph()
    E = {}
    if wide:
        # a given graph; weights fixed but for a few
        nb = neighbours(wide['graph'])
        h = stream(wide['seed'])
        free = [tuple(e) for e in wide['free']]
        for i in range(n):
            for j in nb[i]:
                if j < i:
                    q = next(h) % 10
                    v = c.real(f'w{i}_{j}', 0, 9) if (i, j) in free else c.num(q)
                    G.add_edge(names[j], names[i], v) if (i + j) % 2 else G.add_edge(names[i], names[j], v)
                    E[frozenset((i, j))] = v
        for q in range(n):
            G.nodes.add(names[q])
        return G, E
    for i in range(n):
        for j in range(i):
            if single is not None and (i, j) not in single and (j, i) not in single:
                continue
            if c.fork(c.bool_(f'e{i}_{j}')):
                v = c.real(f'w{i}_{j}', 0, 9) if weights is None else c.num(weights[(i + 2 * j) % len(weights)])
                if twice:
                    G.add_edge(names[i], names[j], c.num(8))
                G.add_edge(names[j], names[i], v) if (i + j) % 2 else G.add_edge(names[i], names[j], v)
                E[frozenset((i, j))] = v
            else:
                for q in (i, j):
                    G.nodes.add(names[q])
    for q in range(n):
        G.nodes.add(names[q])
    return G, E


def components(c, n, op='lt', names=None, default=False, single=None, twice=False, weights=None, wide=None, at=None):
    names = names or list(range(n))
    G, E = build(c, n, names, single=single, twice=twice, weights=weights, wide=wide)
    th = c.num(0.9) if default else c.num(at) if at is not None else c.real('threshold', 0, 9)
    f = operator.lt if default else OPS[op]
    link = [[bool(c.fork(f(E[frozenset((i, j))], th))) if frozenset((i, j)) in E else False for j in range(n)] for i in range(n)]
    got = G.connected_components() if default else G.connected_components(threshold=th, op=f)
    want = groups(n, link)
    c.check('an undirected graph has components', got is not None)
    if got is None:
        return
    sets = [tuple(sorted(names.index(v) for v in s.nodes)) for s in got]
    c.check('every node once', sorted(q for s in sets for q in s) == list(range(n)))
    c.check('components', len(sets) == len(set(sets)) and set(sets) == want)
    for s, ids in zip(got, sets):
        inner = {(i, j) for i in ids for j in ids if frozenset((i, j)) in E}
        mine = {(names.index(a), names.index(b)) for a in s.edges for b in s.edges[a]}
        c.check('edges of the component', mine == inner)
        for i, j in inner & mine:
            c.check('weights of the component', c.eq(s.edges[names[i]][names[j]], E[frozenset((i, j))]))
    # the graph itself is as it was
    c.check('nodes kept', G.nodes == set(names))
    c.check('edges kept', {frozenset((names.index(a), names.index(b))) for a in G.edges for b in G.edges[a]} == set(E))
    for e, v in E.items():
        i, j = sorted(e)
        c.check('weights kept', c.and_(c.eq(G.edges[names[i]][names[j]], v), c.eq(G.edges[names[j]][names[i]], v)))
    again = G.connected_components() if default else G.connected_components(threshold=th, op=f)
    c.check('same components again', {tuple(sorted(names.index(v) for v in s.nodes)) for s in again} == want)


def chain(c, n, cut):
    """a long chain of units; the weights of a few links are arbitrary"""
    G = c.g.components.Graph()
    w = {}
    for i in range(n - 1):
        w[i] = c.real(f'w{i}', 0, 1) if i in cut else c.num(0)
        G.add_edge(i, i + 1, w[i])
    th = c.div(1, 2)
    got = c.shallow(lambda: G.connected_components(threshold=th))
    want, part = set(), [0]
    for i in range(n - 1):
        if i in cut and not c.fork(w[i] < th):
            want.add(tuple(part))
            part = []
        part.append(i + 1)
    want.add(tuple(part))
    c.check('components of a chain', {tuple(sorted(s.nodes)) for s in got} == want and len(got) == len(want))


def directed(c, n):
    G, E = build(c, n, list(range(n)), undirected=False)
    box = []
    t = c.said(lambda: box.append(G.connected_components()))
    c.check('no components of a directed graph', box == [None] and 'directed' in t)
    for i in range(n):
        for j in range(i):
            both = (i in G.edges.get(j, {})) + (j in G.edges.get(i, {}))
            c.check('one direction', both == (1 if frozenset((i, j)) in E else 0))


RING = [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)]
HARNESSES = [
    dict(name='components', fn=components, quick=[dict(n=3), dict(n=3, op='gt'), dict(n=3, op='ge', names=['x', 'a', 'm']), dict(n=3, default=True), dict(n=3, twice=True), dict(n=5, single=RING[:4]), dict(n=3, op='eq', weights=(1, 2)), dict(n=4),
                dict(n=20, at=5, wide=dict(seed=1, graph=('rook', 4, 5), free=[(6, 1), (19, 18)])), dict(n=16, at=7, op='ge', wide=dict(seed=2, graph=('ring', 16, 2), free=[(3, 2)])), dict(n=25, at=4, wide=dict(seed=3, graph=('path', 25), free=[(13, 12), (24, 23)])), dict(n=13, at=1, op='gt', wide=dict(seed=4, graph=('star', 13), free=[(12, 0)]))],
         thorough=[dict(n=4, op='gt'), dict(n=4), dict(n=4, op='ge'), dict(n=5, single=RING + [(0, 2), (1, 3)]), dict(n=6, single=RING + [(0, 5), (2, 5)]), dict(n=4, default=True)]),
    dict(name='chain', fn=chain, quick=[dict(n=1500, cut=[700]), dict(n=40, cut=[0, 20, 38])], thorough=[dict(n=6000, cut=[3000, 5998])]),
    dict(name='directed', fn=directed, quick=[dict(n=3)], thorough=[dict(n=3)]),
]
OUTSIDE = 'larger graphs than listed; loops from a node to itself; in the larger inputs all but a few cells are fixed values'
