"""Plotting leaves global state alone."""
from .c33 import build


def state(c, what):
    """run the plotting call with any drawing call failing, compare global state before and after"""
    if c.sym is False:
        import matplotlib as mpl
        before = dict(mpl.rcParams)
    r0 = c.rng_state()
    c.faults = True
    e, v = c.raises(what)
    c.faults = False
    a, b = c.rcparams()
    if c.sym is False:
        b = before
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            c.check('plotting default ' + k, False)
    c.check('plotting defaults', all(a.get(k) == b.get(k) for k in set(a) | set(b)))
    c.check('random state', c.rng_state() == r0)
    for m in c.moran_calls:
        c.check('same random start for both dates', m.rng_at_start == r0)
    return e


def only_injected(c, e):
    c.check('no other failure', e is None or isinstance(e, c.Backend))


def rose(c, n, own=False, attribute=False, kw=(), bad=False, method=False):
    r, y, a = build(c, n)
    k = dict(kw)
    ax = c.drawn('mine') if own else None
    att = [c.real(f'at{i}', 0, 9) for i in range(n)] if attribute else None
    f = (lambda: r.plot(attribute=att, ax=ax, **k)) if method else lambda: c.g.plotting.dynamic_lisa_rose(r, attribute=att, ax=ax, **k)
    e = state(c, f)
    if bad:
        c.check('refused', e is not None)
    else:
        only_injected(c, e)


def vectors(c, n, own=False, arrows=True, kw=(), method=False):
    r, y, a = build(c, n)
    k = dict(kw)
    ax = c.drawn('mine') if own else None
    f = (lambda: r.plot_vectors(arrows=arrows)) if method else lambda: c.g.plotting.dynamic_lisa_vectors(r, ax=ax, arrows=arrows, **k)
    only_injected(c, state(c, f))


def heatmap(c, n, own=False):
    r, y, a = build(c, n)
    ax = c.drawn('mine') if own else None
    e = state(c, lambda: c.g.plotting.dynamic_lisa_heatmap(r, ax=ax))
    only_injected(c, e)
    c.check('two analyses', len(c.moran_calls) == 2 or e is not None)


def composite(c, n):
    r, y, a = build(c, n)
    e = state(c, lambda: c.g.plotting.dynamic_lisa_composite(r, 'frame'))
    only_injected(c, e)
    c.check('two analyses', len(c.moran_calls) == 2 or e is not None)


def origin(c, n):
    r, y, a = build(c, n)
    only_injected(c, state(c, lambda: r.plot_origin()))


def twice(c, n):
    """a failing plot, then another one"""
    r, y, a = build(c, n)
    state(c, lambda: c.g.plotting.dynamic_lisa_rose(r, attribute=[1] * n, color='r'))
    state(c, lambda: c.g.plotting.dynamic_lisa_composite(r, 'frame'))


Q = [('rose', rose, [dict(n=2), dict(n=2, own=True), dict(n=2, attribute=True), dict(n=2, attribute=True, own=True), dict(n=2, attribute=True, kw=[('c', 'r')], bad=True), dict(n=2, attribute=True, own=True, kw=[('color', 'r')], bad=True),
                     dict(n=2, method=True), dict(n=2, method=True, attribute=True, kw=[('alpha', 1), ('cmap', 'GnBu')])], [dict(n=3, attribute=True)]),
     ('vectors', vectors, [dict(n=2), dict(n=2, own=True, arrows=False), dict(n=2, method=True), dict(n=2, kw=[('c', 'r')])], [dict(n=3, kw=[('color', 'r')], own=True)]),
     ('heatmap', heatmap, [dict(n=2), dict(n=2, own=True)], [dict(n=3)]), ('composite', composite, [dict(n=2)], [dict(n=3)]), ('origin', origin, [dict(n=2)], [dict(n=3)]), ('twice', twice, [dict(n=2)], [dict(n=3)])]
HARNESSES = [dict(name=n, fn=f, drawing=True, quick=q, thorough=t) for n, f, q, t in Q]
OUTSIDE = 'state other than the plotting defaults and the global random state; interruptions outside drawing calls and the random permutations'
