"""Shared specification helpers (run symbolically and on the real package)."""


def row_sums(c, M):
    return [c.sum(r) for r in M]


def stochastic(c, k, name='p', empty=False, pos=False, ints=False):
    """arbitrary row-stochastic matrix as nested lists; with empty=True any row may be all zero instead"""
    P = []
    for i in range(k):
        if ints:
            j = c.fd(f'{name}{i}', 0, k - 1)
            P.append([c.ind(j == q) for q in range(k)])
            continue
        r = [c.real(f'{name}{i}_{j}', 0, 1, ) for j in range(k - 1)]
        last = 1 - c.sum(r) if r else c.num(1)
        if k > 2:
            c.assume(last >= 0)
        row = r + [last]
        if pos:
            for v in row:
                c.assume(v > 0)
        if empty and c.fork(c.bool_(f'{name}_empty{i}')):
            row = [c.num(0)] * k
        P.append(row)
    return P


def farray(c, rows):
    """float array"""
    return c.array(rows, 'f')


def reach_closure(adj):
    n = len(adj)
    r = [[i == j or adj[i][j] for j in range(n)] for i in range(n)]
    for m in range(n):
        for i in range(n):
            for j in range(n):
                r[i][j] = r[i][j] or (r[i][m] and r[m][j])
    return r


def classes_of(reach):
    """(communicating classes, recurrent classes) as sorted lists of sorted lists"""
    n = len(reach)
    cls, seen = [], set()
    for i in range(n):
        if i not in seen:
            g = [j for j in range(n) if reach[i][j] and reach[j][i]]
            seen.update(g)
            cls.append(g)
    rec = [g for g in cls if all(j in g for j in range(n) if reach[g[0]][j])]
    return cls, rec


def ints(c, a):
    """concrete nested lists of integers"""
    def f(v):
        return [f(x) for x in v] if isinstance(v, list) else int(v)
    return f(c.items(a)) if not isinstance(a, (int,)) else a


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    s = 0
    for j in range(n):
        t = M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]])
        s = s + t if j % 2 == 0 else s - t
    return s


def kendall_counts(c, x, y, pairs):
    """concordant, discordant, x-ties, y-ties, both over given index pairs"""
    con = c.count([c.or_(c.and_(x[i] < x[j], y[i] < y[j]), c.and_(x[i] > x[j], y[i] > y[j])) for i, j in pairs])
    dis = c.count([c.or_(c.and_(x[i] < x[j], y[i] > y[j]), c.and_(x[i] > x[j], y[i] < y[j])) for i, j in pairs])
    ex = c.count([x[i] == x[j] for i, j in pairs])
    ey = c.count([y[i] == y[j] for i, j in pairs])
    return con, dis, ex, ey


def sign(c, a, b):
    """sign of (b - a) as a number"""
    return c.ind(b > a) - c.ind(b < a)


def conc(c, x, y, i, j):
    return sign(c, x[i], x[j]) * sign(c, y[i], y[j])


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


def zero_pattern(c, P):
    """fork on the positive entries (positive probabilities are at least 1/10000)"""
    adj = [[c.fork(v > 0) for v in r] for r in P]
    for r, a in zip(P, adj):
        for v, on in zip(r, a):
            if on:
                c.assume(v >= c.div(1, 10000))
    return adj


def matrices(c, k, empty=False, ints=False, name='p', irreducible=False, pos=False, only=None, wide=None):
    """arbitrary stochastic matrix and its transition graph; rows with a positive diagonal by their off-diagonal
    entries, others by weights, so that differences such as 1 - p_ii have evident signs.
    With empty=True any row may be all zero.  Positive probabilities are at least 1/10000."""
    lo = c.div(1, 10000)
    if wide:
        return wide_matrix(c, k, name, **wide)
    if ints:
        P = stochastic(c, k, name, empty=empty, ints=True)
        adj = zero_pattern(c, P)
        if irreducible and len(classes_of(reach_closure(adj))[0]) > 1:
            c.assume(False)
        return P, adj
    if only is not None:
        adj = [list(r) for r in only]
    else:
        adj = [[pos or c.fork(c.bool_(f'{name}{i}_{j}+')) for j in range(k)] for i in range(k)]
    if not empty and not all(any(r) for r in adj):
        c.assume(False)
    if irreducible and len(classes_of(reach_closure(adj))[0]) > 1:
        c.assume(False)
    P = []
    for i in range(k):
        on = [j for j in range(k) if adj[i][j]]
        row = [c.num(0)] * k
        if len(on) == 1:
            row[on[0]] = c.num(1)
        elif i in on:
            off = [j for j in on if j != i]
            for j in off:
                row[j] = c.real(f'{name}{i}_{j}', 0, 1, strict=True)
                c.assume(row[j] >= lo)
            row[i] = 1 - c.sum([row[j] for j in off])
            c.assume(row[i] >= lo)
        elif on:
            w = {j: c.real(f'{name}{i}_{j}', 0, 10000, strict=True) for j in on[1:]}
            for j in on[1:]:
                c.assume(w[j] >= lo)
            tot = 1 + c.sum(w.values())
            for j in on:
                row[j] = w[j] / tot if j in w else c.div(1, tot)
        P.append(row)
    return P, adj


def wide_matrix(c, k, name, seed, kind='dense', rows=(1,)):
    """mostly fixed chain; in the given rows one transition probability is arbitrary.
    dense: all positive; ring: many zeros, one class; blocks: classes of states i, i + 3, i + 6, ..., the last one leaving to all others;
    moves: every state moves on for certain; empty: blocks with a row without transitions"""
    g = stream(seed)
    W = []
    for i in range(k):
        r = [next(g) % 9 + 1 for _ in range(k)]
        if kind == 'ring':
            r = [v if j in (i, (i + 1) % k) or v > 7 and (i + j) % 3 == 0 else 0 for j, v in enumerate(r)]
        elif kind in ('blocks', 'empty'):
            r = [v if i % 3 == j % 3 or i == k - 1 else 0 for j, v in enumerate(r)]
            if kind == 'empty' and i == 1:
                r = [0] * k
        elif kind == 'moves':
            r = [int(j == (i * 5 + 3) % k) for j in range(k)]
        W.append(r)
    adj = [[v > 0 for v in r] for r in W]
    P = []
    for i, r in enumerate(W):
        s = sum(r)
        row = [c.div(v, s) if v else c.num(0) for v in r]
        off = [j for j in range(k) if r[j] and j != i]
        if i in rows and r[i] and off:
            # the diagonal and one other entry share their probability
            j = off[0]
            p = c.real(f'{name}{i}_{j}', 0, 1, strict=True)
            tot = row[i] + row[j]
            c.assume(p >= c.div(1, 10000))
            c.assume(p <= tot - c.div(1, 10000))
            row[j], row[i] = p, tot - p
        P.append(row)
    return P, adj


def filled(c, P, adj):
    """empty rows made absorbing"""
    k = len(P)
    Q = [list(r) for r in P]
    A = [list(r) for r in adj]
    for i in range(k):
        if not any(adj[i]):
            Q[i] = [c.num(1 if i == j else 0) for j in range(k)]
            A[i] = [i == j for j in range(k)]
    return Q, A


def sure_hit(adj, j):
    """states (other than j) from which j is reached with probability one"""
    k = len(adj)
    ok = set(range(k)) - {j}
    # avoid j as an intermediate state
    sub = [[adj[a][b] and a != j for b in range(k)] for a in range(k)]
    r = reach_closure(sub)
    return {i for i in ok if all(r[m][j] for m in range(k) if r[i][m])}


# ---- larger inputs: mostly fixed values, derived from a number, with a few arbitrary cells
def stream(seed):
    """fixed pseudo-random numbers, the same on every run and platform"""
    s = (seed * 2654435761 + 12345) % 2 ** 32
    while True:
        s = (s * 1664525 + 1013904223) % 2 ** 32
        yield s >> 8


def vec(spec, default=None):
    """a list as given, or from dict(seed=, n=, hi=, holes=[indices], plus=); None marks an arbitrary value.
    plus moves the values to where single precision cannot tell neighbours apart"""
    if not isinstance(spec, dict):
        return spec
    g = stream(spec['seed'])
    out = [next(g) % (spec['hi'] - spec.get('lo', 0) + 1) + spec.get('lo', 0) for _ in range(spec['n'])]
    if spec.get('distinct'):
        q = sorted(range(spec['n']), key=lambda i: (out[i], i * 7919 % spec['n']))
        out = [q.index(i) for i in range(spec['n'])]
    if spec.get('down'):
        out = sorted(out, reverse=True)
    out = [v + spec.get('plus', 0) for v in out]
    for i in spec.get('holes', ()):
        out[i] = None
    return out


def table(spec):
    """nested lists as given, or from dict(seed=, n=, t=, hi=, holes=[(i, s)])"""
    if not isinstance(spec, dict):
        return spec
    n, t = spec['n'], spec['t']
    g = stream(spec['seed'])
    out = [[next(g) % (spec['hi'] - spec.get('lo', 0) + 1) + spec.get('lo', 0) + spec.get('plus', 0) for _ in range(t)] for _ in range(n)]
    for i, s in spec.get('holes', ()):
        out[i][s] = None
    return out


def neighbours(spec):
    """neighbour lists as given, or ('ring', n, reach), ('path', n), ('rook', rows, columns), ('star', n), ('full', n), ('some', n, seed)"""
    if not spec or not isinstance(spec[0], str):
        return spec
    kind, n = spec[0], spec[1]
    e = set()
    if kind == 'rook':
        r, q = n, spec[2]
        n = r * q
        e = {(i * q + j, i * q + j + 1) for i in range(r) for j in range(q - 1)} | {(i * q + j, i * q + q + j) for i in range(r - 1) for j in range(q)}
    elif kind == 'ring':
        e = {(i, (i + d) % n) for i in range(n) for d in range(1, spec[2] + 1)}
    elif kind == 'path':
        e = {(i, i + 1) for i in range(n - 1)}
    elif kind == 'star':
        e = {(0, i) for i in range(1, n)}
    elif kind == 'full':
        e = {(i, j) for j in range(n) for i in range(j)}
    elif kind == 'some':
        g = stream(spec[2])
        e = {(i, j) for j in range(n) for i in range(j) if next(g) % 5 == 0}
        e |= {(i, (i + 1) % n) for i in range(n)}
    nb = [set() for _ in range(n)]
    for i, j in e:
        if i != j:
            nb[i].add(j)
            nb[j].add(i)
    return [sorted(v) for v in nb]


def scripted(seed, count, n):
    """the count-th fixed permutation of n things"""
    g = stream(seed * 1000003 + count)
    p = list(range(n))
    for i in range(n - 1, 0, -1):
        j = next(g) % (i + 1)
        p[i], p[j] = p[j], p[i]
    return p


def hood(w):
    """positions of the neighbours of every position"""
    at = {v: i for i, v in enumerate(w.id_order)}
    return [[at[j] for j in w.neighbors[v]] for v in w.id_order]
