"""Matrix utilities."""


from .common import vec, scripted


def entries(c, shape, kind, wide=None):
    """non-negative matrix entries"""
    if wide:
        # mostly fixed: some rows empty, one arbitrary entry in each of a few rows, empty or not
        q = 1
        for m in shape:
            q *= m
        v = vec(dict(seed=wide['seed'], n=q, hi=6))
        k = shape[-1]
        for r in range(q // k):
            if (r * r + wide['seed']) % 4 == 0:
                v[r * k:r * k + k] = [0] * k
        for i in wide['holes']:
            v[i] = None
        v = [(c.real(f'a{i}', 0, 9) if kind == 'f' else c.num(c.value(c.fd(f'a{i}', 0, 3)))) if q is None else c.num(q) for i, q in enumerate(v)]
        for m in reversed(shape[1:]):
            v = [v[i:i + m] for i in range(0, len(v), m)]
        return v
    if kind == 'i':
        return c.ints('a', shape, 0, 9)
    if kind == 'fd':
        return c.fds('a', shape, 0, 2)
    return c.reals('a', shape, 0, 9)


def fill(c, shape, kind, as_list=False, wide=None):
    A = entries(c, shape, kind, wide)
    if as_list:
        # callers may also pass nested lists
        r = c.g.util.fill_empty_diagonals(A)
    else:
        a = c.array(A, kind='f' if kind == 'f' else None)
        r = c.g.util.fill_empty_diagonals(a)
        c.check_eq('input unchanged', a, A)
        c.check('a copy', r is not a)
    layers = [A] if len(shape) == 2 else A
    out = [r] if len(shape) == 2 else [r[q] for q in range(shape[0])]
    c.check('shape', c.shape(r) == tuple(shape))
    for L, R in zip(layers, out):
        for i, row in enumerate(L):
            empty = c.all_([c.eq(v, 0) for v in row])
            for j, v in enumerate(row):
                c.check('diagonal' if i == j else 'off diagonal', c.eq(R[i, j], c.ite(empty, 1, v) if i == j else v))


def refused(c, dims):
    A = c.reals('a', dims, 0, 9)
    e, _ = c.raises(lambda: c.g.util.fill_empty_diagonals(c.array(A, 'f')), NotImplementedError)
    c.check('refused', e is not None)


def lower(c, n, kind):
    A = c.reals('a', (n, n), -9, 9) if kind == 'f' else c.ints('a', (n, n), -9, 9)
    a = c.array(A, 'f') if kind == 'f' else c.array(A)
    v = c.g.util.get_lower(a)
    want = [A[i][j] for i in range(n) for j in range(i)]
    c.check('shape', c.shape(v) == (len(want), 1))
    for i, x in enumerate(want):
        c.check('entry', c.eq(v[i, 0], x))
    c.check_eq('input unchanged', a, A)


def shuffle(c, n, ids='list', script=None):
    c.scripted = script
    A = c.reals('a', (n, n), -9, 9)
    a = c.array(A, 'f')
    order = list(range(n)) if ids == 'list' else c.np.arange(n)
    r = c.g.util.shuffle_matrix(a, order)
    c.check('one draw', len(c.draws) == 1)
    d = c.draws[0]
    c.check('shape', c.shape(r) == (n, n))
    for i in range(n):
        for j in range(n):
            c.check('same permutation of rows and columns', c.eq(r[i, j], A[d[i]][d[j]]))
    c.check_eq('input unchanged', a, A)
    c.check('identifiers kept', sorted(int(v) for v in c.items(c.array(list(order)))) == list(range(n)))


SHAPES = [(1, 1), (2, 2), (3, 3), (4, 4), (1, 2, 2), (2, 2, 2), (3, 2, 2), (2, 3, 3), (5, 5)]
HARNESSES = [
    dict(name='fill', fn=fill, quick=[dict(shape=list(s), kind=k) for s in SHAPES[:-1] for k in ('f', 'i')] + [dict(shape=[2, 2], kind='f', as_list=True), dict(shape=[2, 2, 2], kind='i', as_list=True)]
         + [dict(shape=s, kind=q, wide=dict(seed=i, holes=[5, 12])) for q in ('f', 'i') for i, s in enumerate(([12, 12], [11, 3, 3], [3, 11, 11], [30, 30], [4, 6, 6]))],
         thorough=[dict(shape=[5, 5], kind=k) for k in ('f', 'i')] + [dict(shape=[3, 3, 3], kind=k) for k in ('f', 'i')] + [dict(shape=[4, 2, 2], kind='f'), dict(shape=[2, 4, 4], kind='f'), dict(shape=[6, 6], kind='f')]),
    dict(name='refused', fn=refused, quick=[dict(dims=[2]), dict(dims=[1, 1, 1, 1]), dict(dims=[2, 2, 2, 2])], thorough=[dict(dims=[3])]),
    dict(name='lower', fn=lower, quick=[dict(n=n, kind=k) for n in (1, 2, 3, 4, 5, 12) for k in ('f', 'i')], thorough=[dict(n=n, kind='f') for n in (6, 7, 8)]),
    dict(name='shuffle', fn=shuffle, quick=[dict(n=n, ids=i) for n in (1, 2, 3, 4) for i in ('list', 'array')] + [dict(n=n, ids=i, script=n) for n in (9, 17) for i in ('list', 'array')], thorough=[dict(n=5, ids=i) for i in ('list', 'array')]),
]
OUTSIDE = 'larger matrices than listed; negative entries when filling diagonals (rows cancelling to zero); start orders other than 0..n-1 when shuffling; in the larger inputs all but a few cells are fixed values'
