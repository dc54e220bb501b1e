"""Contiguity of a set of units without one member."""
from .common import neighbours


def connected(nb, ids):
    ids = list(ids)
    if not ids:
        return True
    seen, todo = {ids[0]}, [ids[0]]
    while todo:
        for j in nb[todo.pop()]:
            if j in ids and j not in seen:
                seen.add(j)
                todo.append(j)
    return len(seen) == len(ids)


def leave(c, n, labels=None, graph=None, fixed=()):
    """any graph, any set, any leaver, any order of the set"""
    labels = labels or list(range(n))
    if graph is None:
        w = c.graph(n, ids=labels)
    else:
        graph = neighbours(graph)
        w = c.W({labels[i]: [labels[j] for j in v] for i, v in enumerate(graph)}, labels)
    ids = [l for i, l in enumerate(labels) if i in fixed or c.fork(c.bool_(f'in{i}'))]
    if not ids:
        c.assume(False)
    if c.fork(c.bool_('reversed')):
        ids = ids[::-1]
    leaver = c.pick('leaver', ids)
    before = list(ids)
    r = c.g.components.check_contiguity(w, ids, leaver)
    rest = [v for v in before if v != leaver]
    c.check('contiguous', bool(r) == connected(w.neighbors, rest))
    c.check('set unchanged', ids == before)


def component(c, n):
    """is_component for any subset in any order"""
    w = c.graph(n)
    ids = [i for i in range(n) if c.fork(c.bool_(f'in{i}'))]
    p = c.draw_perm(len(ids))
    ids = [ids[i] for i in p]
    before = list(ids)
    c.check('one component', bool(c.g.components.is_component(w, ids)) == connected(w.neighbors, ids))
    c.check('set unchanged', ids == before)


def lattice(a, b):
    return [[j for j in range(a * b) if abs(i // b - j // b) + abs(i % b - j % b) == 1] for i in range(a * b)]


HARNESSES = [
    dict(name='leave', fn=leave, quick=[dict(n=2), dict(n=3), dict(n=3, labels=['a', 'c', 'b']), dict(n=4, graph=lattice(2, 2)), dict(n=6, graph=lattice(2, 3)), dict(n=20, graph=('rook', 4, 5), fixed=list(range(16)) + [19]), dict(n=16, graph=('path', 16), fixed=list(range(3, 16))), dict(n=14, graph=('star', 14), fixed=list(range(2, 14))), dict(n=25, graph=('some', 25, 3), fixed=list(range(0, 25, 2)) + [1, 3, 5, 7, 9, 11, 13, 15, 17]), dict(n=13, graph=('full', 13), fixed=list(range(11)))],
         thorough=[dict(n=4), dict(n=8, graph=lattice(2, 4)), dict(n=9, graph=lattice(3, 3))]),
    dict(name='component', fn=component, quick=[dict(n=3)], thorough=[dict(n=4)]),
]
OUTSIDE = 'neighbour structures that are not symmetric; more units than listed; in the larger inputs all but a few cells are fixed values'
