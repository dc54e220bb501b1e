"""Rose, vector, origin and composite plots depict the movements of their own rose."""
from .c33 import build
from .c22 import weights

NAMES = ('alpha', 'cmap')


def of(c, *ends):
    """recorded drawing calls of these kinds: (name, args, keywords, object)"""
    return [(n, a, k, o) for (n, a, k), o in zip(c.calls, c.onto) if n.rsplit('.', 1)[-1] in ends and not n.startswith('moran')]


def rows(v):
    return [v[i] for i in range(len(v))]


def segments(c):
    """end points of every drawn line, with its looks"""
    out = []
    for n, a, k, o in of(c, 'plot'):
        x, y = c.np.asarray(a[0]), c.np.asarray(a[1])
        cols = [(x[:, i], y[:, i]) for i in range(x.shape[1])] if len(x.shape) == 2 else [(x, y)]
        out += [((u[0], v[0]), (u[-1], v[-1]), a[2:], k, o) for u, v in cols]
    return out


def lags(c, r, y, n):
    nb = [[(i + 1) % n, (i - 1) % n] if n > 2 else [1 - i] for i in range(n)]
    return [[c.sum([y[j][t] for j in nb[i]]) for t in (0, 1)] for i in range(n)]


def same(c, p, q):
    return c.and_(c.eq(p[0], q[0]), c.eq(p[1], q[1]))


def limits(c, xs, ys):
    """the limits set leave none of these out"""
    for end, vs in (('x', xs), ('y', ys)):
        got = of(c, end + 'lim', 'set_' + end + 'lim')
        if got:
            n, a, k, o = got[-1]
            lo, hi = a if len(a) == 2 else a[0]
            for v in vs:
                c.check('within the limits', c.and_(c.or_(lo <= v, c.eq(lo, v)), c.or_(hi >= v, c.eq(hi, v))))


def scrambled(r):
    """a randomisation of the movements before the plot"""
    r.permute(permutations=1)


def scatter(c, r, y, n, att, kw, own):
    s = of(c, 'scatter')
    c.check('one point cloud', len(s) == 1)
    nm, a, k, o = s[0]
    c.check('on the axes given', own is None or o is own)
    if own is None:
        # direction and length are shown as such
        asked = [k for _, _, k in c.calls if 'polar' in (k.get('projection'), *(k.get('subplot_kw') or {}).values()) or k.get('polar') or (k.get('subplot_kw') or {}).get('polar')]
        c.check('polar axes', len(asked) == 1)
    names = dict(zip(('x', 'y', 's', 'c'), a))
    names.update(k)
    L = lags(c, r, y, n)
    for i in range(n):
        dx, dy = y[i][1] - y[i][0], L[i][1] - L[i][0]
        c.check('direction', c.eq(names['x'][i], c.arctan2(dy, dx)))
        c.check('length', c.eq(names['y'][i], c.sqrt(dx * dx + dy * dy)))
        if att is not None:
            c.check('coloured by the attribute', c.eq(names['c'][i], att[i]))
    if att is None:
        c.check('no colouring', names.get('c') is kw.get('c'))
    for q in kw:
        c.check('keyword ' + q, names[q] is kw[q])


def rose(c, n, own=False, attribute=False, kw=(), method=False, shuffled=False):
    r, y, a = build(c, n)
    if shuffled:
        scrambled(r)
    kw = dict(kw)
    ax = c.drawn('mine') if own else None
    att = [c.real(f'at{i}', 0, 9) for i in range(n)] if attribute else None
    f, got = r.plot(attribute=att, ax=ax, **kw) if method else c.g.plotting.dynamic_lisa_rose(r, attribute=att, ax=ax, **kw)
    scatter(c, r, y, n, att, kw, ax)
    c.check('axes returned', got is (ax if own else of(c, 'scatter')[0][3]))
    c.check('colour key', len(of(c, 'colorbar')) == (1 if attribute and not own else 0))


def vectors(c, n, own=False, arrows=True, kw=(), method=False, shuffled=False, default=False):
    r, y, a = build(c, n)
    if shuffled:
        scrambled(r)
    kw = dict(kw)
    ax = c.drawn('mine') if own else None
    if method:
        f, got = r.plot_vectors() if default else r.plot_vectors(arrows=arrows)
    else:
        f, got = c.g.plotting.dynamic_lisa_vectors(r, ax=ax, **({} if default else dict(arrows=arrows)), **kw)
    L = lags(c, r, y, n)
    S = segments(c)
    c.check('one line per unit', len(S) == n)
    ends = [((y[i][0], L[i][0]), (y[i][1], L[i][1])) for i in range(n)]
    for i in range(n):
        p, q, fmt, k, o = S[i]
        c.check('starts at the first period', same(c, p, ends[i][0]))
        c.check('ends at the last period', same(c, q, ends[i][1]))
        c.check('on the axes given', ax is None or o is ax)
        if 'c' in kw or 'color' in kw:
            c.check('colour asked for', k.get('color', k.get('c')) == kw.get('c', kw.get('color')))
        for w in kw:
            if w not in ('c', 'color'):
                c.check('keyword ' + w, k[w] is kw[w])
    c.check('axes returned', got is (ax if own else S[0][4]))
    A = of(c, 'annotate', 'arrow')
    c.check('arrows on demand', len(A) == (n if arrows else 0))
    if arrows:
        for i, (nm, b, k, o) in enumerate(A):
            v = dict(zip(('text', 'xy', 'xytext'), b))
            v.update(k)
            c.check('arrow to the last period', same(c, v['xy'], ends[i][1]))
            c.check('arrow from the first period', same(c, v['xytext'], ends[i][0]))
    limits(c, [v for r_ in y for v in r_], [v for r_ in L for v in r_])


def origin(c, n, shuffled=False):
    r, y, a = build(c, n)
    if shuffled:
        scrambled(r)
    r.plot_origin()
    L = lags(c, r, y, n)
    S = segments(c)
    c.check('one line per unit', len(S) == n)
    d = [(y[i][1] - y[i][0], L[i][1] - L[i][0]) for i in range(n)]
    for i in range(n):
        c.check('from the origin', same(c, S[i][0], (0, 0)))
        c.check('to the movement', same(c, S[i][1], d[i]))
    limits(c, [v for v, _ in d], [v for _, v in d])


def panels(c, r_y, n, frame, level, k):
    """a composite of these two columns: maps with their titles, heat map, rose"""
    maps = [(a, kw) for nm, a, kw in c.calls if nm == 'moran.plot']
    c.check('two maps', len(maps) == 2)
    for (a, kw), t, title in zip(maps, (0, 1), ('Start time', 'End time')):
        c.check_eq('map of the period', a[0].y, [r[t] for r in r_y])
        c.check('own geometries', a[1] is frame)
        c.check('significance of the map', c.eq(kw['crit_value'], level))
        ax = kw['ax']
        titles = [b[0] for nm, b, w, o in of(c, 'set_title', 'title') if o is ax]
        c.check('title of the map', titles[-1:] == [title])
    c.check('own axes', maps[0][1]['ax'] is not maps[1][1]['ax'])
    c.check('one heat map', len(c.heat) == 1)
    hx = c.heat[0][1].get('ax')
    labels = {q: [b[0] for nm, b, w, o in of(c, 'set_' + q) if o is hx] for q in ('xlabel', 'ylabel')}
    c.check('heat map labels', labels['ylabel'][-1:] == ['Start time'] and labels['xlabel'][-1:] == ['End time'])
    s = of(c, 'scatter')
    axes = [hx, maps[0][1]['ax'], s[0][3], maps[1][1]['ax']]
    c.check('four panels', len({id(q) for q in axes}) == 4)


def composite(c, n, default=False):
    r, y, a = build(c, n)
    frame = object()
    v = c.num(0.05) if default else c.real('level', 0, 1)
    f, axs = c.g.plotting.dynamic_lisa_composite(r, frame) if default else c.g.plotting.dynamic_lisa_composite(r, frame, p=v)
    panels(c, y, n, frame, v, 8)
    scatter(c, r, y, n, None, {}, None)
    c.check('axes returned', len(axs) == 4)


class Column:
    def __init__(self, v):
        self.values = v


class Frame:
    """columns by name, as a data frame hands them out"""

    def __init__(self, cols):
        self._d = cols
        self.columns = list(cols)

    def __getitem__(self, k):
        return Column(self._d[k])


def explore(c, n, names, pattern, start, end, given=True):
    """the columns offered, and the composite drawn for a choice among them"""
    r, y, a = build(c, n)
    cols = {q: [c.real(f'c{j}_{i}', -9, 9) for i in range(n)] for j, q in enumerate(names)}
    F = Frame({q: c.array(v, 'f') for q, v in cols.items()})
    v = c.real('level', 0, 1)
    kw = dict(pattern=pattern) if given else {}
    c.g.plotting.dynamic_lisa_composite_explore(r, F, p=v, figsize=(3, 2), **kw)
    c.check('one widget', len(c.interact) == 1)
    f, w = c.interact[0]
    offered = {q for q in names if q.endswith(pattern)}
    times = [q for q in w if q in ('start_time', 'end_time')]
    c.check('two choices', len(times) == 2)
    for q in times:
        o = w[q]
        vals = set(o.values()) if hasattr(o, 'values') else set(o)
        c.check('columns on offer', vals == offered and (not hasattr(o, 'keys') or all(o[x] == x for x in o)))
    w = {q: (x if q not in times else None) for q, x in w.items()}
    w['start_time'], w['end_time'] = start, end
    f(**w)
    panels(c, [[cols[start][i], cols[end][i]] for i in range(n)], n, F, v, 5)
    scatter(c, None, [[cols[start][i], cols[end][i]] for i in range(n)], n, None, {}, None)
    fig = [k for nm, b, k in c.calls if nm.endswith('figure') and not nm.endswith('get_figure')]
    c.check('size asked for', any(k.get('figsize') == (3, 2) for k in fig))


V = ['v60', 'v70', 'w60', 'v60b']
Q = [('rose', rose, [dict(n=2), dict(n=3, own=True), dict(n=2, attribute=True), dict(n=2, attribute=True, own=True), dict(n=2, method=True, attribute=True, kw=[('alpha', 0.25), ('cmap', 'GnBu')]), dict(n=2, kw=[('c', 'r'), ('s', 3)]), dict(n=3, method=True, shuffled=True)],
      [dict(n=5, attribute=True), dict(n=4, shuffled=True)]),
     ('vectors', vectors, [dict(n=2), dict(n=3, own=True, arrows=False), dict(n=2, method=True), dict(n=3, method=True, default=True), dict(n=2, default=True), dict(n=2, kw=[('c', 'r')]), dict(n=2, own=True, kw=[('color', 'g'), ('linewidth', 3)]), dict(n=3, shuffled=True), dict(n=2, method=True, arrows=False)],
      [dict(n=4), dict(n=4, shuffled=True, method=True)]),
     ('origin', origin, [dict(n=2), dict(n=3), dict(n=3, shuffled=True)], [dict(n=4)]),
     ('composite', composite, [dict(n=2), dict(n=3), dict(n=2, default=True)], [dict(n=4)]),
     ('explore', explore, [dict(n=2, names=V, pattern='60', start='w60', end='v60'), dict(n=2, names=V, pattern='', start='v60', end='v70'), dict(n=2, names=V, pattern='', given=False, start='v60b', end='v70'), dict(n=3, names=V[:2], pattern='0', start='v70', end='v70')],
      [dict(n=4, names=V, pattern='60', start='v60', end='w60')])]
HARNESSES = [dict(name=n, fn=f, drawing=True, quick=q, thorough=t) for n, f, q, t in Q]
OUTSIDE = 'roses of more than two periods; the rendering itself (the drawing library is a recording stand-in); looks other than those asked for'
