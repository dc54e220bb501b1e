"""Mobility indices."""
from .common import stochastic, det, matrices, stream


def prais(c, k, ints=False, wide=None):
    P = matrices(c, k, wide=wide)[0] if wide else stochastic(c, k, ints=ints)
    a = c.array(P)
    before = c.copy(a)
    r = c.items(c.g.markov.prais(a))
    c.check('one value per state', len(r) == k)
    for i in range(k):
        c.check('prais', c.eq(r[i], 1 - P[i][i]))
    c.check_eq('input unchanged', a, before)


def measures(c, k, which, ini=None, wide=None):
    P = matrices(c, k, wide=wide)[0] if wide else stochastic(c, k)
    a = c.array(P)
    before = c.copy(a)
    f = c.g.mobility.markov_mobility
    if which == 'P':
        v = f(a)
        c.check('P is the default', c.eq(v, f(a, measure='P')))
        c.check('P', c.eq(v * (k - 1), k - c.sum([P[i][i] for i in range(k)])))
    elif which == 'D':
        v = f(a, measure='D')
        c.check('D', c.eq(v, 1 - c.abs(det(P))))
    elif which == 'L2':
        v = f(a, measure='L2')
        lam = 1 - v
        mods = c.eigmods(P)
        c.check('L2 is from an eigenvalue', c.any_([c.eq(lam, m) for m in mods]))
        c.check('L2 is the second largest', c.and_(c.count([c.or_(m >= lam, c.eq(m, lam)) for m in mods]) >= 2,
                                                   c.count([c.and_(m > lam, c.not_(c.eq(m, lam))) for m in mods]) <= 1))
    else:
        if ini is None:
            v = f(a, measure=which)
            w = [c.div(1, k)] * k
        else:
            if wide:
                # one arbitrary share, the others fixed
                g = stream(wide['seed'])
                v = [next(g) % 5 + 1 for _ in range(k)]
                w = [c.div(q, 2 * sum(v[1:-1])) for q in v]
                w[0] = c.real('w', 0, 1)
                w[-1] = c.div(1, 2) - w[0]
                c.assume(w[-1] >= 0)
            else:
                w = c.reals('w', (k,), 0, 1)
                c.assume(c.eq(c.sum(w), 1))
            wa = c.array(w)
            v = f(a, measure=which, ini=wa)
            c.check_eq('initial distribution unchanged', wa, w)
        if which == 'B1':
            c.check('B1', c.eq(v * (k - 1), k - k * c.sum([w[i] * P[i][i] for i in range(k)])))
        else:
            c.check('B2', c.eq(v * (k - 1), c.sum([w[i] * P[i][j] * abs(i - j) for i in range(k) for j in range(k)])))
    c.check_eq('input unchanged', a, before)


def immobile(c, k):
    """identity matrices: nobody moves"""
    a = c.array([[1.0 if i == j else 0.0 for j in range(k)] for i in range(k)])
    for m in ('P', 'D', 'L2', 'B1', 'B2'):
        if m != 'L2' or k < 4:
            c.check('no mobility: ' + m, c.eq(c.g.mobility.markov_mobility(a, measure=m), 0))
    w = c.reals('w', (k,), 0, 1)
    c.assume(c.eq(c.sum(w), 1))
    for m in ('B1', 'B2'):
        c.check('no mobility: ' + m, c.eq(c.g.mobility.markov_mobility(a, measure=m, ini=c.array(w)), 0))
    for v in c.items(c.g.markov.prais(a)):
        c.check('no mobility: prais', c.eq(v, 0))


HARNESSES = [
    dict(name='prais', fn=prais, quick=[dict(k=2), dict(k=3), dict(k=4), dict(k=3, ints=True), dict(k=13, wide=dict(seed=1, rows=[0, 12])), dict(k=20, wide=dict(seed=2, kind='ring', rows=[7]))], thorough=[dict(k=k) for k in (2, 3, 4, 5, 6)]),
    dict(name='measures', fn=measures,
         quick=[dict(k=k, which=m) for k in (2, 3) for m in ('P', 'D', 'L2', 'B1', 'B2')] + [dict(k=k, which=m, ini=1) for k in (2, 3) for m in ('B1', 'B2')]
         + [dict(k=4, which=m) for m in ('P', 'B1', 'B2')]
         + [dict(k=12, which=m, wide=dict(seed=1, rows=[0, 11])) for m in ('P', 'B1', 'B2')] + [dict(k=15, which=m, ini=1, wide=dict(seed=2, rows=[14], kind='ring')) for m in ('B1', 'B2')] + [dict(k=5, which='D', wide=dict(seed=1)), dict(k=7, which='D', wide=dict(seed=1, kind='ring'))],
         thorough=[dict(k=k, which=m) for k in (2, 3) for m in ('P', 'D', 'L2')] + [dict(k=k, which=m, ini=i) for k in (2, 3, 4, 5) for m in ('B1', 'B2') for i in (None, 1)]
         + [dict(k=4, which='D'), dict(k=5, which='P')]),
    dict(name='immobile', fn=immobile, quick=[dict(k=2), dict(k=3), dict(k=4)], thorough=[dict(k=5), dict(k=6)]),
]
ASSUMPTIONS = 'numpy supplies the eigenvalues: characteristic polynomial solved exactly'
OUTSIDE = 'more states than listed; L2 for more than three states; rounding; in the larger inputs all but a few cells are fixed values'
