"""LISA transition heat maps."""
from .common import stream
from .c22 import weights, PATH3

NAMES = {1: 'HH', 2: 'LH', 3: 'LL', 4: 'HL'}        # quadrant numbers of a local Moran analysis


def build(c, n):
    w = weights(c, n, [[(i + 1) % n, (i - 1) % n] if n > 2 else [1 - i] for i in range(n)])
    y = [[c.real(f'y{i}_{t}', -9, 9) for t in (0, 1)] for i in range(n)]
    a = c.array(y, 'f')
    return c.g.directional.Rose(a, w, k=4), y, a


def categories(c, n, level):
    """name of the significant quadrant per date and unit, as conditions"""
    out = []
    for t in (0, 1):
        q = [c.fd(f'moran_q{t}_{i}', 1, 4) for i in range(n)]
        p = [c.real(f'moran_p{t}_{i}', 0, 1) for i in range(n)]
        out.append([{**{nm: c.and_(c.eq(q[i], v), p[i] < level) for v, nm in NAMES.items()}, 'ns': c.not_(p[i] < level)} for i in range(n)])
    return out


def table(c, n, level, heat, mask=True):
    start, end = categories(c, n, level)
    data, kw = heat
    rows, cols = list(kw['yticklabels']), list(kw['xticklabels'])
    c.check('names', sorted(rows) == sorted(cols) == sorted(['ns'] + list(NAMES.values())))
    c.check('shape', c.shape(data) == (5, 5))
    for a in rows:
        for b in cols:
            c.check('transitions', c.eq(data[rows.index(a), cols.index(b)], c.count([c.and_(start[i][a], end[i][b]) for i in range(n)])))
    if mask:
        for i in range(5):
            for j in range(5):
                c.check('mask', bool(kw['mask'][i, j]) == (rows[i] == cols[j]))
    c.check('every unit once', c.eq(c.sum([data[i, j] for i in range(5) for j in range(5)]), n))


def dates(c, y):
    """the quadrants are those of the first and of the last period"""
    c.check('two analyses', len(c.moran_calls) == 2)
    for m, t in zip(c.moran_calls, (0, -1)):
        c.check_eq('date analysed', m.y, [r[t] for r in y])


def level(c, p):
    return c.real('level', 0, 1) if p is None else c.num(p)


def mostly(c, n, seed, free):
    """quadrants and p-values of all but the listed units are fixed"""
    g = stream(seed)
    for t in (0, 1):
        for i in range(n):
            v, p = next(g) % 4 + 1, next(g) % 8
            if [i, t] not in [list(f) for f in free]:
                c.assume(c.eq(c.fd(f'moran_q{t}_{i}', 1, 4), v))
                c.assume(c.eq(c.real(f'moran_p{t}_{i}', 0, 1), c.div(p, 128)))


def heatmap(c, n, p=None, default=False, wide=None):
    r, y, a = build(c, n)
    v = level(c, 0.05 if default else p)
    if wide:
        mostly(c, n, **wide)
    c.g.plotting.dynamic_lisa_heatmap(r) if default else c.g.plotting.dynamic_lisa_heatmap(r, p=v)
    c.check('one map', len(c.heat) == 1)
    dates(c, y)
    table(c, n, v, c.heat[0])
    kw = c.heat[0][1]
    c.check('looks', kw['annot'] is True and kw['cmap'] == 'YlGnBu' and kw['cbar'] is False and kw['square'] is True)


def options(c, n):
    """keywords given by the user win"""
    r, y, a = build(c, n)
    m = c.np.zeros((5, 5), dtype=bool)
    ax = c.drawn('mine')
    c.g.plotting.dynamic_lisa_heatmap(r, p=level(c, None), ax=ax, annot=False, cmap='GnBu', mask=m, cbar=True, square=False, linewidths=3)
    kw = c.heat[0][1]
    c.check('keywords', kw['annot'] is False and kw['cmap'] == 'GnBu' and kw['mask'] is m and kw['cbar'] is True and kw['square'] is False and kw['linewidths'] == 3)
    c.check('axes', kw['ax'] is ax)
    table(c, n, level(c, None), c.heat[0], mask=False)


def named(c, n):
    r, y, a = build(c, n)
    mine = ['a', 'b', 'c', 'd', 'e']
    c.g.plotting.dynamic_lisa_heatmap(r, xticklabels=mine, yticklabels=mine)
    c.check('labels', list(c.heat[0][1]['xticklabels']) == mine and list(c.heat[0][1]['yticklabels']) == mine)


def composite(c, n, p=None):
    r, y, a = build(c, n)
    v = level(c, p)
    c.g.plotting.dynamic_lisa_composite(r, 'frame', p=v)
    c.check('one map', len(c.heat) == 1)
    dates(c, y)
    table(c, n, v, c.heat[0])


HARNESSES = [
    dict(name='heatmap', fn=heatmap, drawing=True, quick=[dict(n=2), dict(n=3), dict(n=2, default=True), dict(n=2, p=0.01), dict(n=14, default=True, wide=dict(seed=1, free=[(0, 0), (13, 1)])), dict(n=12, p=0.03, wide=dict(seed=2, free=[(7, 1)]))], thorough=[dict(n=4), dict(n=5), dict(n=4, default=True)]),
    dict(name='options', fn=options, drawing=True, quick=[dict(n=2)], thorough=[dict(n=3)]),
    dict(name='named', fn=named, drawing=True, quick=[dict(n=2)], thorough=[dict(n=3)]),
    dict(name='composite', fn=composite, drawing=True, quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)]),
]
OUTSIDE = 'larger panels than listed; roses of more than two periods; the rendering itself (the drawing library is a recording stand-in); in the larger inputs all but a few cells are fixed values'
