"""Further numpy functions, built from those of arr."""
import operator
from fractions import Fraction
import numpy as rnp
from . import core, arr
from .core import Num, lift, ite, b_and, b_or, b_not, Unsupported, num_sqrt, F0
from .arr import NP, SArray, asarr, mk, wrap, ewise, umap, tb, np_sum, struct


def ints(v):
    if isinstance(v, (tuple, list)):
        return type(v)(ints(x) for x in v)
    if isinstance(v, SArray):
        return rnp.array([int(x) for x in v._flat()], dtype=int).reshape(v.shape)
    return int(v) if isinstance(v, (Num, bool)) else v


def is_nan(v):
    return lift(v).sp == 'nan'


def nanless(fill, red):
    def f(a, axis=None, **kw):
        return red(umap(lambda v: lift(fill) if is_nan(v) else v, a), axis, **kw)
    return f


def nankeep(red):
    def f(a, axis=None, **kw):
        a = asarr(a)
        if not any(is_nan(v) for v in a._flat()):
            return red(a, axis)
        if axis is None or a.ndim == 1:
            return red(mk([v for v in a._flat() if not is_nan(v)], (sum(not is_nan(v) for v in a._flat()),), a.kind), None)
        raise Unsupported('nan reduction along an axis')
    return f


def select(conds, choices, default=0):
    r = asarr(default) if not isinstance(default, (int, float, Num)) else lift(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = arr.where(c, v, r)
    return r


def choose(a, choices, **k):
    choices = [asarr(c) for c in choices]
    a = asarr(a)
    shp = rnp.broadcast_shapes(a.shape, *[c.shape for c in choices])
    cs = [rnp.broadcast_to(c.base_(), shp) for c in choices]
    ix = rnp.broadcast_to(a.base_(), shp)
    r = rnp.empty(shp, dtype=object)
    for p in rnp.ndindex(*shp):
        r[p] = cs[lift(ix[p]).__index__()][p]
    return wrap(r, choices[0].kind)


def along(a, ix, axis):
    a, ix = asarr(a), asarr(ix)
    if axis is None:
        return a.flatten(), ints(ix.flatten()), 0
    return a, ints(ix), axis


def take_along_axis(a, ix, axis=-1):
    a, ix, axis = along(a, ix, axis)
    return wrap(rnp.take_along_axis(a.base_(), ix, axis), a.kind)


def put_along_axis(a, ix, v, axis):
    ix = ints(asarr(ix))
    v = rnp.broadcast_to(arr._opnd(v), ix.shape)
    for p in rnp.ndindex(*ix.shape):
        q = list(p)
        q[axis] = int(ix[p])
        arr.setitem(a, tuple(q), v[p])


def ravel_multi_index(ix, dims, **k):
    dims = ints(tuple(dims))
    r = lift(0)
    for i, d in zip(ix, dims):
        r = r * d + (asarr(i) if isinstance(i, (SArray, list, tuple)) else lift(i))
    return r


def unravel_index(ix, shape, **k):
    shape = ints(tuple(shape)) if isinstance(shape, (tuple, list, SArray)) else (int(shape),)
    v = rnp.unravel_index(ints(asarr(ix)) if isinstance(ix, (SArray, list, tuple)) else int(ix), shape)
    return tuple(wrap(rnp.asarray(x)) if getattr(x, 'ndim', 0) else lift(int(x)) for x in v)


def fromfunction(f, shape, dtype=float, **k):
    shape = ints(tuple(shape))
    g = rnp.indices(shape)
    r = f(*[arr.np_astype(wrap(x), dtype) for x in g], **k)
    return r


def lexsort(keys, axis=-1):
    keys = [asarr(k) for k in (keys if isinstance(keys, (tuple, list)) else list(asarr(keys)))]
    n = len(keys[0])

    def lt(i, j):
        for k in reversed(keys):
            a, b = k._flat()[i], k._flat()[j]
            if bool(arr._lt(a, b)):
                return True
            if bool(arr._lt(b, a)):
                return False
        return False
    o = list(range(n))
    out = []
    for i in o:
        p = len(out)
        while p > 0 and lt(i, out[p - 1]):
            p -= 1
        out.insert(p, i)
    return mk(out, (n,), 'i')


def quant(els, q):
    s = [els[i] for i in arr._merge_sorted(els, arr._lt)]
    n = len(s)
    h = lift(q) * (n - 1)
    lo = int(h.floor())
    hi = min(lo + 1, n - 1)
    return s[lo] + (lift(s[hi]) - s[lo]) * (h - lo)


def quantile(a, q, axis=None, scale=1, **k):
    if k.get('method', 'linear') != 'linear':
        raise Unsupported('quantile method')
    a = asarr(a)
    many = isinstance(q, (SArray, list, tuple))
    qs = [lift(v) / scale for v in (asarr(q)._flat() if many else [q])]
    lists, shp = arr._axis_iter(a, axis)
    lists = [[lift(v) for v in l] for l in lists]
    out = []
    for v in qs:
        r = [quant(l, v) for l in lists]
        out.append(r[0] if axis is None or not shp else mk(r, shp, 'f'))
    return arr.array(out) if many else out[0]


def cumprod(a, axis=None, **k):
    a = asarr(a)
    if axis is None:
        a, axis = a.flatten(), 0
    b = rnp.moveaxis(a.base_().copy(), axis, 0)
    for i in range(1, b.shape[0]):
        b[i] = ewise(operator.mul, wrap(b[i]), wrap(b[i - 1])).base_() if b.ndim > 1 else lift(b[i]) * b[i - 1]
    return wrap(rnp.moveaxis(b, 0, axis).copy(), a.kind)


def copyto(dst, src, where=True, **k):
    arr.setitem(dst, Ellipsis, src if where is True else arr.where(where, src, dst))


def putmask(a, mask, v):
    if isinstance(v, (SArray, list, tuple)) and asarr(v).shape != asarr(a).shape:
        raise Unsupported('putmask with values of another shape')
    arr.setitem(a, Ellipsis, arr.where(mask, v, a))


def put(a, ix, v, **k):
    ix = ints(asarr(ix).flatten()) if isinstance(ix, (SArray, list, tuple)) else [int(ix)]
    vs = asarr(v)._flat() if isinstance(v, (SArray, list, tuple)) else [v]
    for i, p in enumerate(ix):
        arr.setitem(a, tuple(int(q) for q in rnp.unravel_index(int(p), a.shape)), vs[i % len(vs)])


def compress(c, a, axis=None, **k):
    c = [i for i, v in enumerate(asarr(c)._flat()) if bool(tb(v))]
    return asarr(a).flatten()[c] if axis is None else arr._take(a, c, axis)


def block(a):
    def conv(v):
        return [conv(x) for x in v] if isinstance(v, list) else asarr(v).base_()
    return wrap(rnp.block(conv(a)).astype(object))


def histogram2d(x, y, bins=10, **k):
    if not isinstance(bins, (list, tuple)) or not all(isinstance(b, (SArray, list)) for b in bins):
        raise Unsupported('histogram2d with a number of bins')
    bx, by = [asarr(b)._flat() for b in bins]
    x, y = asarr(x)._flat(), asarr(y)._flat()

    def within(v, e, i):
        return b_and(v >= e[i], v <= e[i + 1] if i == len(e) - 2 else v < e[i + 1])
    r = [arr.sum_els([lift(b_and(within(p, bx, i), within(q, by, j))) for p, q in zip(x, y)]) for i in range(len(bx) - 1) for j in range(len(by) - 1)]
    return mk(r, (len(bx) - 1, len(by) - 1), 'f'), asarr(bins[0]), asarr(bins[1])


def lstsq(a, b, rcond=None):
    """least squares of full column rank by the normal equations"""
    a, b = asarr(a), asarr(b)
    x = arr.la_solve(arr.np_dot(a.T, a), arr.np_dot(a.T, b))
    return x, mk([], (0,), 'f'), a.shape[1], None


def multi_dot(ms, **k):
    r = ms[0]
    for m in ms[1:]:
        r = arr.np_dot(r, m)
    return r


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    p, q = [list(v) if isinstance(v, (list, tuple)) else [v] for v in axes]
    p, q = [v % a.ndim for v in p], [v % b.ndim for v in q]
    L = 'abcdefghijklmnop'
    sa = list(L[:a.ndim])
    sb = list(L[a.ndim:a.ndim + b.ndim])
    for i, j in zip(p, q):
        sb[j] = sa[i]
    out = [s for i, s in enumerate(sa) if i not in p] + [s for j, s in enumerate(sb) if j not in q]
    return arr.np_einsum(''.join(sa) + ',' + ''.join(sb) + '->' + ''.join(out), a, b)


def xor(a, b):
    from .core import b_eq
    return b_not(b_eq(tb(a), tb(b)))


def exactly(t):
    """names of kinds of numbers"""
    if t in (int, 'i', rnp.integer, rnp.int64):
        return 'i'
    if t in (float, 'f', rnp.floating, rnp.float64):
        return 'f'
    if t in (bool, 'b', rnp.bool_):
        return 'b'
    return None


def issubdtype(t, of):
    k = arr.kchar(t) if not isinstance(t, str) else t[0]
    k = {'u': 'i', '?': 'b'}.get(k, k)
    if of is rnp.number:
        return k in 'if'
    if of in (rnp.integer, rnp.signedinteger, int):
        return k == 'i'
    if of in (rnp.floating, rnp.inexact, float):
        return k == 'f'
    if of in (rnp.bool_, bool):
        return k == 'b'
    if of in (rnp.str_, rnp.character, str):
        return k in 'US'
    if of in (rnp.object_, object):
        return k == 'O'
    return k == exactly(of)


def result_type(*a):
    ks = []
    for v in a:
        if isinstance(v, SArray):
            ks.append(v.kind)
        elif isinstance(v, Num):
            ks.append('f' if v.kind == 'f' else 'i')
        elif isinstance(v, bool):
            ks.append('b')
        elif isinstance(v, (int, float)):
            ks.append('i' if isinstance(v, int) else 'f')
        else:
            ks.append(arr.kchar(v))
    for k in 'Ofib':
        if k in ks:
            return arr._DtypeShim(k)
    raise Unsupported('result_type')


def setup():
    def reg(**k):
        for n, f in k.items():
            setattr(NP, n, f)
    for n, f in dict(hypot=lambda a, b: num_sqrt(lift(a) * a + lift(b) * b), bitwise_xor=xor).items():
        arr._UF[n] = (lambda f: lambda a, b: ewise(f, a, b))(f)
    reg(pow=NP.power, concat=NP.concatenate, permute_dims=NP.transpose, matrix_transpose=lambda a: asarr(a).swapaxes(-1, -2),
        nansum=nanless(0, lambda a, ax, **k: np_sum(a, ax, **k)), nanprod=nanless(1, lambda a, ax, **k: NP.prod(a, ax)),
        nanmax=nankeep(lambda a, ax: asarr(a).max(ax)), nanmin=nankeep(lambda a, ax: asarr(a).min(ax)), nanmean=nankeep(lambda a, ax: arr.np_mean(a, ax)),
        select=select, choose=choose, take_along_axis=take_along_axis, put_along_axis=put_along_axis, ravel_multi_index=ravel_multi_index, unravel_index=unravel_index,
        fromiter=lambda it, dtype=float, count=-1, **k: arr.array(list(it), dtype=dtype), fromfunction=fromfunction, lexsort=lexsort,
        quantile=quantile, percentile=lambda a, q, axis=None, **k: quantile(a, q, axis, 100, **k), median=lambda a, axis=None, **k: quantile(a, Fraction(1, 2), axis),
        cumprod=cumprod, nancumsum=lambda a, axis=None: arr.np_cumsum(umap(lambda v: lift(0) if is_nan(v) else v, a), axis),
        ptp=lambda a, axis=None, **k: asarr(a).max(axis) - asarr(a).min(axis), copyto=copyto, putmask=putmask, place=putmask, put=put, compress=compress,
        extract=lambda c, a: compress(asarr(c).flatten(), a), diagflat=lambda v, k=0: arr.np_diag(asarr(v).flatten(), k), block=block,
        broadcast_arrays=lambda *a, **k: [wrap(x.copy(), asarr(o).kind) for x, o in zip(rnp.broadcast_arrays(*[asarr(o).base_() for o in a]), a)],
        atleast_3d=lambda a: wrap(rnp.atleast_3d(asarr(a).base_()), asarr(a).kind), histogram2d=histogram2d,
        diag_indices_from=lambda a: NP.diag_indices(asarr(a).shape[0], asarr(a).ndim),
        tril_indices_from=lambda a, k=0: NP.tril_indices(asarr(a).shape[0], k, asarr(a).shape[1]),
        triu_indices_from=lambda a, k=0: NP.triu_indices(asarr(a).shape[0], k, asarr(a).shape[1]),
        unique_values=lambda a: arr.np_unique(a), unique_inverse=lambda a: arr.np_unique(a, return_inverse=True), unique_counts=lambda a: arr.np_unique(a, return_counts=True),
        setxor1d=arr.np_setop('setxor1d'), tensordot=tensordot, divmod=lambda a, b: (NP.floor_divide(a, b), NP.remainder(a, b)),
        isneginf=lambda a: umap(lambda v: lift(v).sp == '-inf', a), isposinf=lambda a: umap(lambda v: lift(v).sp == 'inf', a),
        isreal=lambda a: umap(lambda v: True, a), fix=NP.trunc, issubdtype=issubdtype, result_type=result_type, promote_types=result_type)
    for n in ('hsplit', 'vsplit', 'dsplit', 'rollaxis'):
        setattr(NP, n, struct(n))
    la = NP.linalg
    la.multi_dot, la.lstsq, la.trace, la.diagonal, la.outer, la.matmul = multi_dot, lstsq, NP.trace, NP.diagonal, NP.outer, NP.matmul
    la.matrix_transpose = NP.matrix_transpose


setup()
