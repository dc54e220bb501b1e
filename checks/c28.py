"""Sequence distance matrices."""
from fractions import Fraction
from .common import table
from .c27 import words, LETTERS, alignments, symmetric, cheapest, array


def least(a, b, cost, indel):
    """cheapest alignment of two token lists (recursion over prefixes)"""
    memo = {}

    def f(i, j):
        if (i, j) not in memo:
            o = []
            if i and j:
                o.append(f(i - 1, j - 1) + cost(a[i - 1], b[j - 1]))
            if i:
                o.append(f(i - 1, j) + indel)
            if j:
                o.append(f(i, j - 1) + indel)
            memo[i, j] = min(o) if o else Fraction(0)
        return memo[i, j]
    return f(len(a), len(b))


def oracle(kind, W):
    """(distance of two sequences of class indices, substitution costs or None, indel)"""
    used = sorted({v for w in W for v in w})
    k = len(used)
    W = [[used.index(v) for v in w] for w in W]
    S = None
    if kind == 'hamming':
        return W, lambda a, b: Fraction(sum(x != y for x, y in zip(a, b))), None, None
    if kind == 'interval':
        S, g = [[Fraction(abs(i - j)) for j in range(k)] for i in range(k)], k - 1
    elif kind == 'arbitrary':
        S, g = [[Fraction(int(i != j), 2) for j in range(k)] for i in range(k)], 1
    elif kind == 'markov':
        N = [[sum(w[t] == i and w[t + 1] == j for w in W for t in range(len(w) - 1)) for j in range(k)] for i in range(k)]
        P = [[Fraction(v, sum(r)) if sum(r) else Fraction(0) for v in r] for r in N]
        S, g = [[(2 - P[i][j] - P[j][i]) / 2 if i != j else Fraction(0) for j in range(k)] for i in range(k)], 1
    elif kind == 'tran':
        def tok(w):
            return list(zip([-1] + list(w), w))

        def cost(x, y):
            if x == y:
                return Fraction(0)
            if x[0] == -1 or y[0] == -1:
                return Fraction(1)
            return Fraction(abs((x[0] == x[1]) - (y[0] == y[1])))
        return W, lambda a, b: least(tok(a), tok(b), cost, Fraction(2)), None, 2
    return W, lambda a, b: least(a, b, lambda x, y: S[x][y], Fraction(g)), S, g


def num(c, f):
    return c.div(f.numerator, f.denominator)


def typed(c, kind, lens, k, fixed=(), labels=None):
    W = words(c, lens, k, fixed)
    if labels is None:
        data = [''.join(LETTERS[v] for v in w) for w in W]
    else:
        data = c.np.array([[labels[v] for v in w] for w in W])
    s = c.g.sequence.Sequence(data, dist_type=kind)
    V, dist, S, g = oracle(kind, W)
    n = len(W)
    name = LETTERS if labels is None else labels
    used = sorted({name[v] for w in W for v in w})
    c.check('classes', [x for x in c.items(s.classes)] == used)
    c.check('number of classes', s.k == len(used))
    if labels is not None and labels != sorted(labels):
        # class numbers follow the labels' own order
        V, dist, S, g = oracle(kind, [[used.index(labels[v]) for v in w] for w in W])
    if S is not None:
        c.check_eq('substitution costs', s.subs_mat, [[num(c, v) for v in r] for r in S])
    if g is not None:
        c.check('indel cost', c.eq(s.indel, g))
    c.check('shape', c.shape(s.seq_dis_mat) == (n, n))
    for i in range(n):
        for j in range(n):
            c.check('diagonal' if i == j else 'distance', c.eq(s.seq_dis_mat[i, j], num(c, dist(V[i], V[j]))))


def wide(c, kind, seed, n, t, k, holes, step=1, lo=0):
    """many states and longer sequences; labels are numbers; one or two of them arbitrary"""
    W = table(dict(seed=seed, n=n, t=t, hi=k - 1, holes=holes))
    x = [[int(c.pick(f'x{i}_{s}', [0, k // 2, k - 1])) if v is None else v for s, v in enumerate(r)] for i, r in enumerate(W)]
    s = c.g.sequence.Sequence(c.np.array([[lo + step * v for v in r] for r in x]), dist_type=kind)
    V, dist, S, g = oracle(kind, x)
    used = sorted({v for r in x for v in r})
    c.check('classes', [int(v) for v in c.items(s.classes)] == [lo + step * v for v in used])
    c.check('number of classes', s.k == len(used))
    if S is not None:
        c.check_eq('substitution costs', s.subs_mat, [[num(c, v) for v in r] for r in S])
    if g is not None:
        c.check('indel cost', c.eq(s.indel, g))
    for i in range(n):
        for j in range(n):
            c.check('diagonal' if i == j else 'distance', c.eq(s.seq_dis_mat[i, j], num(c, dist(V[i], V[j]))))


def user(c, lens, k, fixed=()):
    """arbitrary costs, any number of sequences, also repeated ones"""
    W = words(c, lens, k, fixed)
    S = symmetric(c, k)
    g = c.real('indel', 0, 9)
    s = c.g.sequence.Sequence([''.join(LETTERS[v] for v in w) for w in W], subs_mat=array(c, S), indel=g)
    n = len(W)
    used = sorted({v for w in W for v in w})
    c.assume(len(used) == k)
    for i in range(n):
        c.check('diagonal', c.eq(s.seq_dis_mat[i, i], 0))
        for j in range(i):
            c.check('symmetric', c.eq(s.seq_dis_mat[i, j], s.seq_dis_mat[j, i]))
            if W[i] == W[j]:
                c.check('repeated sequences', c.eq(s.seq_dis_mat[i, j], 0))
            else:
                c.check('distance', cheapest(c, s.seq_dis_mat[j, i], W[j], W[i], S, g))


def refused(c, what):
    """incomplete requests are refused"""
    seqs = ['AB', 'BA'] if what != 'unequal' else ['AB', 'BAA']
    S = array(c, symmetric(c, 2))
    kw = dict(nothing={}, subs=dict(subs_mat=S), indel=dict(indel=c.real('g', 0, 9)), unequal=dict(dist_type='hamming'))[what]
    e, _ = c.raises(lambda: c.g.sequence.Sequence(seqs, **kw), ValueError)
    c.check('refused', e is not None)


TYPES = ['interval', 'hamming', 'arbitrary', 'markov', 'tran']
MANY = ['ABCDEFGHIJKL', 'LKJIHGFEDCBA']
HARNESSES = [
    dict(name='typed', fn=typed,
         quick=[dict(kind=t, lens=[2, 2], k=3, fixed=['AC']) for t in TYPES] + [dict(kind=t, lens=[3], k=3, fixed=['ABC', 'CBA', 'ABC'], labels=[7, 2, 12]) for t in TYPES]
         + [dict(kind=t, lens=[], k=12, fixed=['AKB', 'KLA', 'BBA', 'ABC', 'DEF', 'GHI', 'JJJ', 'CKA', 'AKB']) for t in TYPES] + [dict(kind=t, lens=[], k=12, fixed=['BL', 'LB', 'AC', 'DE', 'FG', 'HI', 'JK']) for t in ('interval', 'arbitrary', 'markov')] + [dict(kind=t, lens=[2, 1], k=2, fixed=['ABAB']) for t in ('interval', 'arbitrary')]
         + [dict(kind=t, lens=[1, 1], k=12, fixed=['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L']) for t in ('interval',)] + [dict(kind='tran', lens=[2], k=4, fixed=['AB', 'CD'])],
         thorough=[dict(kind=t, lens=[2, 2, 2], k=3) for t in TYPES] + [dict(kind=t, lens=[4, 4], k=2, fixed=['ABAB']) for t in TYPES] + [dict(kind=t, lens=[1, 1], k=12, fixed=list(LETTERS[:12])) for t in TYPES]
         + [dict(kind=t, lens=[2], k=12, fixed=['BL', 'LB', 'AC', 'DE', 'FG', 'HI', 'JK']) for t in ('interval', 'arbitrary')] + [dict(kind=t, lens=[2], k=12, fixed=['ABKL', 'CDEF', 'GHIJ']) for t in ('interval', 'arbitrary')]),
    dict(name='wide', fn=wide,
         quick=[dict(kind=q, seed=i, n=4, t=15, k=9, holes=[(0, 7)], step=10, lo=-20) for i, q in enumerate(TYPES)] + [dict(kind=q, seed=i + 5, n=8, t=8, k=30, holes=[(3, 7)]) for i, q in enumerate(TYPES)] + [dict(kind=q, seed=i + 9, n=13, t=3, k=14, holes=[(12, 0)]) for i, q in enumerate(TYPES)],
         thorough=[dict(kind=q, seed=i, n=3, t=40, k=20, holes=[(0, 7), (1, 39)]) for i, q in enumerate(TYPES)] + [dict(kind=q, seed=i, n=25, t=4, k=6, holes=[(0, 3), (24, 0)]) for i, q in enumerate(TYPES)]),
    dict(name='user', fn=user, quick=[dict(lens=[2], k=2, fixed=['AB', 'ABA', 'AB']), dict(lens=[1, 2], k=3, fixed=['ABC'])], thorough=[dict(lens=[2, 2], k=2, fixed=['AB', 'BAB']), dict(lens=[3], k=3, fixed=['ABC', 'CAB', 'ABC'])]),
    dict(name='refused', fn=refused, quick=[dict(what=x) for x in ('nothing', 'subs', 'indel', 'unequal')], thorough=[dict(what=x) for x in ('nothing', 'subs', 'indel', 'unequal')]),
]
OUTSIDE = 'longer sequences, more classes or more sequences than listed; user costs that are not symmetric; transition-oriented or Markov costs for sequences of different lengths; in the larger inputs all but a few cells are fixed values'
