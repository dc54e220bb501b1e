"""Optimal matching distance."""
from .common import stream


def alignments(a, b):
    """every alignment as (substituted pairs, number of insertions and deletions)"""
    if not a and not b:
        return [((), 0)]
    out = []
    if a and b:
        out += [(((a[0], b[0]),) + s, g) for s, g in alignments(a[1:], b[1:])]
    if a:
        out += [(s, g + 1) for s, g in alignments(a[1:], b)]
    if b:
        out += [(s, g + 1) for s, g in alignments(a, b[1:])]
    return out


def costs(c, a, b, cost, indel):
    al = {(tuple(sorted(p for p in s if cost[p[0]][p[1]] is not None)), g) for s, g in alignments(a, b)}
    return [c.sum([cost[p][q] for p, q in s] + [indel * g]) for s, g in sorted(al)]


def cheapest(c, v, a, b, cost, indel):
    """v is the least total cost over all alignments of a and b"""
    t = costs(c, a, b, cost, indel)
    return c.and_(c.all_([c.or_(v <= x, c.eq(v, x)) for x in t]), c.any_([c.eq(v, x) for x in t]))


def symmetric(c, k, zero=None):
    M = [[zero] * k for _ in range(k)]
    for i in range(k):
        for j in range(i):
            M[i][j] = M[j][i] = c.real(f's_{i}_{j}', 0, 9)
    return M


def words_of(seed, sizes, k):
    """fixed words that use all k letters together"""
    g = stream(seed)
    out = [[next(g) % k for _ in range(m)] for m in sizes]
    free = [(a, i) for i in range(max(sizes)) for a in range(len(out)) if i < sizes[a]]
    for q, (a, i) in list(enumerate(free))[:k]:
        out[a][i] = k - 1 - q
    return [''.join(LETTERS[v] for v in w) for w in out]


def array(c, M):
    return c.array([[c.num(0) if v is None else v for v in r] for r in M], 'f')


LETTERS = ''.join(chr(65 + i) for i in range(60))


def words(c, lens, k, fixed=()):
    """arbitrary words over k letters, after the fixed ones"""
    out = [tuple(LETTERS.index(x) for x in f) for f in fixed]
    for q, m in enumerate(lens):
        out.append(tuple(int(c.value(c.fd(f'w{q}_{i}', 0, k - 1))) for i in range(m)))
    return out


def distance(c, lens, k, fixed=None, gap=None):
    """two arbitrary words, arbitrary symmetric costs; a fixed word uses every letter"""
    W = words(c, lens, k, [LETTERS[:k]] if fixed is None else [fixed])
    S = symmetric(c, k)
    g = c.real('indel', 0, 9) if gap is None else gap
    s = c.g.sequence.Sequence([''.join(LETTERS[v] for v in w) for w in W], subs_mat=array(c, S), indel=g)
    n = len(W)
    for i in range(n):
        for j in range(n):
            v = s.seq_dis_mat[i, j]
            if W[i] == W[j]:
                c.check('equal sequences', c.eq(v, 0))
            elif i < j:
                c.check('cheapest alignment', cheapest(c, v, W[i], W[j], S, g))
            else:
                c.check('symmetric', c.eq(v, s.seq_dis_mat[j, i]))


def directed(c, a, b, k):
    """costs that depend on the direction: the distance is the cheapest alignment in one of the two directions"""
    S = [[None if i == j else c.real(f's_{i}_{j}', 0, 9) for j in range(k)] for i in range(k)]
    g = c.real('indel', 0, 9)
    s = c.g.sequence.Sequence([a, b, LETTERS[:k]], subs_mat=array(c, S), indel=g)
    x, y = (tuple(LETTERS.index(v) for v in w) for w in (a, b))
    T = [[S[j][i] for j in range(k)] for i in range(k)]
    v = s.seq_dis_mat[0, 1]
    c.check('cheapest directed alignment', c.or_(cheapest(c, v, x, y, S, g), cheapest(c, v, x, y, T, g)))


def long(c, k, a=None, b=None, costs=None, seed=None, sizes=None):
    """longer words; one unknown indel cost and one or two unknown substitution costs"""
    if seed is not None:
        a, b = words_of(seed, sizes, k)
    g = c.real('indel', 0, 9)
    u = [c.real(f'u{i}', 0, 9) for i in range(2)]
    S = [[c.num(0)] * k for _ in range(k)]
    for i in range(k):
        for j in range(i):
            v = (costs or 'uv')[(i + j) % len(costs or 'uv')]
            S[i][j] = S[j][i] = u[0] if v == 'u' else u[1] if v == 'v' else c.num(int(v))
    rest = [LETTERS[:k]] if k <= 16 else [LETTERS[i:min(i + 5, k)] for i in range(0, k, 5)]
    s = c.g.sequence.Sequence([a, b] + rest, subs_mat=array(c, S), indel=g)
    x, y = (tuple(LETTERS.index(v) for v in w) for w in (a, b))
    v = s.seq_dis_mat[0, 1]
    # cheapest alignment of the ends of the two words, from the back; every alignment as (u, v, constant, indels)
    best = {}
    for i in range(len(x), -1, -1):
        for j in range(len(y), -1, -1):
            if i == len(x) and j == len(y):
                best[i, j] = {(0, 0, 0, 0)}
                continue
            o = set()
            if i < len(x) and j < len(y):
                w = S[x[i]][y[j]]
                d = (0, 0, 0, 0) if x[i] == y[j] else (1, 0, 0, 0) if w is u[0] else (0, 1, 0, 0) if w is u[1] else (0, 0, int(w), 0)
                o |= {tuple(p + q for p, q in zip(d, t)) for t in best[i + 1, j + 1]}
            for n in ((i + 1, j), (i, j + 1)):
                if n in best:
                    o |= {t[:3] + (t[3] + 1,) for t in best[n]}
            # keep what no other alignment beats for all costs
            best[i, j] = {t for t in o if not any(q != t and all(m <= r for m, r in zip(q, t)) for q in o)}
    al = [u[0] * p + u[1] * q + r + g * t for p, q, r, t in sorted(best[0, 0])]
    c.check('cheapest alignment', c.and_(c.all_([c.or_(v <= t, c.eq(v, t)) for t in al]), c.any_([c.eq(v, t) for t in al])))


HARNESSES = [
    dict(name='long', fn=long, quick=[dict(a='ABCD', b='CDAB', k=4), dict(a='ABCDEF', b='DEFABC', k=6, costs='5'), dict(a='AABBCC', b='CCAABB', k=3, costs='u'), dict(a='ABCDE', b='E', k=5, costs='u7'), dict(a='ABABABAB', b='BABABABA', k=2, costs='u'), dict(a='ABCDEFGHIJ', b='FGHIJABCDE', k=10, costs='9'), dict(a='BL', b='LB', k=12, costs='3u'), dict(a='LBA', b='BLA', k=13, costs='u'), dict(seed=1, sizes=[7, 8], k=30, costs='37'), dict(seed=2, sizes=[4, 12], k=40, costs='2'), dict(seed=3, sizes=[25, 3], k=6, costs='u8')],
         thorough=[dict(a='ABCDEFGH', b='EFGHABCD', k=8, costs='u'), dict(a='ABCABC', b='CABCAB', k=3, costs='uv3'), dict(a='AAAABBBB', b='BBBBAAAA', k=2, costs='u'), dict(a='ABCDEF', b='FEDCBA', k=6, costs='uv'), dict(a='ABCDEFGHIJKLMNOP', b='IJKLMNOPABCDEFGH', k=16, costs='7'), dict(a='ABCDEFGHIJKL', b='L', k=12, costs='5')]),
    dict(name='distance', fn=distance, quick=[dict(lens=[3], k=2), dict(lens=[2], k=2, gap=2), dict(lens=[1, 2], k=2, fixed='AB'), dict(lens=[], k=3, fixed='CABA'), dict(lens=[2], k=3), dict(lens=[2, 2], k=2), dict(lens=[4], k=2), dict(lens=[3], k=3)],
         thorough=[dict(lens=[4], k=3), dict(lens=[3], k=3, gap=1), dict(lens=[2, 3], k=2), dict(lens=[3, 3], k=2), dict(lens=[4], k=2, fixed='BABB'), dict(lens=[1, 3], k=3), dict(lens=[4], k=4), dict(lens=[2, 2], k=3)]),
    dict(name='directed', fn=directed, quick=[dict(a='AB', b='BA', k=2), dict(a='ACB', b='BA', k=3), dict(a='ABB', b='BAA', k=2)], thorough=[dict(a='ABB', b='BAA', k=2), dict(a='ACB', b='BAC', k=3), dict(a='ABAB', b='BAA', k=2)]),
]
OUTSIDE = 'longer sequences or more classes than listed; in the larger inputs all but a few cells are fixed values'
