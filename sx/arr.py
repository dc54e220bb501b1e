"""Symbolic numpy: object arrays of Num / SymB with numpy's integer/float/boolean behaviour."""
import itertools, operator, types
from fractions import Fraction
import numpy as rnp
from . import core, fp
from .core import (Num, SymB, lift, ite, isb, b_and, b_or, b_not, b_all, b_any, b_eq, Unsupported, INF, NAN, F0, F1,
                   s_min, s_max, num_sqrt, num_log, cast)


def norm_el(v):
    """canonical element: Num (numpy flavoured), bool/SymB, or other object"""
    if isinstance(v, Num):
        if v.py:
            return Num(v.c, v.f, v.kind, v.sp, False)
        return v
    if isinstance(v, (bool, SymB)):
        return v
    if isinstance(v, rnp.bool_):
        return bool(v)
    if isinstance(v, (int, float, Fraction, rnp.integer, rnp.floating)):
        n = lift(v)
        return Num(n.c, n.f, n.kind, n.sp, False)
    return v


def kind_of(els):
    k = 'b'
    any_ = False
    for v in els:
        any_ = True
        if isinstance(v, (bool, SymB)):
            continue
        if isinstance(v, Num):
            if v.kind == 'f' or v.sp:
                k = 'f' if k != 'O' else k
            elif k == 'b':
                k = 'i'
        else:
            return 'O'
    return k if any_ else 'f'


_DT = {'b': rnp.dtype(bool), 'i': rnp.dtype(rnp.int64), 'f': rnp.dtype(float), 'O': rnp.dtype(object)}


class Bytes:
    """the bytes of an array: equal when the numbers are"""

    def __init__(self, els, kind, w):
        self.els, self.t = els, (kind, w, len(els))

    def __eq__(self, o):
        return isinstance(o, Bytes) and self.t == o.t and bool(b_all([eq_(a, b) for a, b in zip(self.els, o.els)]))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.t)

    def __len__(self):
        return 8 * len(self.els)

    def hex(self):
        return self


class SArray(rnp.ndarray):
    _k = None
    _guard = None
    # (bits, signed) of an integer array narrower than 64 bits
    _w = None

    def __array_finalize__(self, obj):
        if obj is not None:
            self._k = getattr(obj, '_k', None)
            self._w = getattr(obj, '_w', None)

    # numpy needs the true dtype internally; code under test asks through the attribute
    @property
    def kind(self):
        if self._k is None:
            self._k = kind_of(self._flat())
        return self._k

    def _flat(self):
        return list(rnp.ndarray.__iter__(rnp.ndarray.ravel(self.view(rnp.ndarray)))) if self.size else []

    def base_(self):
        return self.view(rnp.ndarray)

    # ---- reading
    def __getitem__(self, ix):
        return getitem(self, ix)

    def __setitem__(self, ix, v):
        setitem(self, ix, v)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(self._flat()[0])

    def __index__(self):
        if self.size == 1 and self.ndim == 0:
            return operator.index(self._flat()[0])
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __int__(self):
        return int(self._flat()[0])

    def __float__(self):
        return float(self._flat()[0])

    def __array_ufunc__(self, uf, method, *ins, **kw):
        return array_ufunc(uf, method, ins, kw)

    def __array_function__(self, func, tps, args, kw):
        f = getattr(NP, func.__name__, None) if func.__module__ == 'numpy' else None
        if f is not None and not isinstance(f, types.ModuleType):
            return f(*args, **kw)
        return wrap(super().__array_function__(func, tps, args, kw))

    # ---- methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np_sum(self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return np_mean(self, axis, keepdims)

    def std(self, axis=None, ddof=0, **kw):
        return np_std(self, axis, ddof)

    def var(self, axis=None, ddof=0, **kw):
        return np_var(self, axis, ddof)

    def prod(self, axis=None, **kw):
        return reduce_(self, operator.mul, axis, lift(1))

    def cumsum(self, axis=None, **kw):
        return np_cumsum(self, axis)

    def min(self, axis=None, **kw):
        return reduce_(self, s_min, axis, None)

    def max(self, axis=None, **kw):
        return reduce_(self, s_max, axis, None)

    def any(self, axis=None, **kw):
        return reduce_(tobool(self), b_or, axis, False)

    def all(self, axis=None, **kw):
        return reduce_(tobool(self), b_and, axis, True)

    def argmax(self, axis=None, **kw):
        return np_arg(self, axis, lambda a, b: b > a)

    def argmin(self, axis=None, **kw):
        return np_arg(self, axis, lambda a, b: b < a)

    def argsort(self, axis=-1, kind=None, **kw):
        return np_argsort(self, axis, kind)

    def sort(self, axis=-1, **kw):
        r = np_sort(self, axis)
        self.base_()[...] = r.base_()

    def nonzero(self):
        return np_nonzero(self)

    def dot(self, o):
        return np_dot(self, o)

    def __matmul__(self, o):
        return np_dot(self, o)

    def __rmatmul__(self, o):
        return np_dot(o, self)

    def diagonal(self, offset=0, axis1=0, axis2=1):
        return wrap(rnp.diagonal(self.base_(), offset, axis1, axis2).copy(), self.kind)

    def trace(self, **kw):
        return np_sum(self.diagonal())

    def astype(self, t, copy=True, **kw):
        return np_astype(self, t)

    def tolist(self):
        return tolist(self.base_())

    def item(self, *a):
        if not a:
            return toitem(self._flat()[0])
        return toitem(self[a if len(a) > 1 else a[0]])

    def copy(self, order='C'):
        r = wrap(self.base_().copy(), self._k)
        r._w = self._w
        return r

    def fill(self, v):
        self[...] = v

    def flatten(self, order='C'):
        r = wrap(self.base_().flatten(order), self._k)
        r._w = self._w
        return r

    def round(self, decimals=0, out=None):
        return umap(lambda v: lift(v).round(int(lift(decimals))), self)

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = NP.maximum(r, lo)
        if hi is not None:
            r = NP.minimum(r, hi)
        return r

    @property
    def flat(self):
        return iter(self._flat())

    @property
    def real(self):
        if not any(hasattr(v, 'mod') for v in self._flat()):
            return self
        return mk([v.real if hasattr(v, 'mod') else v for v in self._flat()], self.shape, 'f')

    @property
    def imag(self):
        return mk([v.imag if hasattr(v, 'mod') else lift(0) for v in self._flat()], self.shape, 'f')

    def tobytes(self, order='C'):
        return Bytes(self._flat() if order != 'F' else self.T._flat(), self.kind, self._w)

    @property
    def data(self):
        raise Unsupported('buffer of an array')

    def tofile(self, *a, **k):
        raise Unsupported('buffer of an array')
    dump = dumps = byteswap = getfield = tofile
    __array_interface__ = __array_struct__ = ctypes = data

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __contains__(self, v):
        return bool((self == v).any())

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __format__(self, spec):
        return '<array>'

    def __repr__(self):
        return f'SArray({tolist(self.base_())})'

    def __str__(self):
        return f'{tolist(self.base_())}'

    # arithmetic goes through __array_ufunc__ except comparisons (object dtype)
    def _bin(self, o, f):
        return ewise(f, self, o)

    def __eq__(self, o):
        return ewise(eq_, self, o) if not isinstance(o, (type(None),)) else False

    def __ne__(self, o):
        return ewise(lambda a, b: b_not(eq_(a, b)), self, o) if o is not None else True

    def __lt__(self, o):
        return ewise(operator.lt, self, o)

    def __le__(self, o):
        return ewise(operator.le, self, o)

    def __gt__(self, o):
        return ewise(operator.gt, self, o)

    def __ge__(self, o):
        return ewise(operator.ge, self, o)

    def __add__(self, o):
        return binop(operator.add, self, o)

    def __radd__(self, o):
        return binop(operator.add, o, self)

    def __sub__(self, o):
        return binop(operator.sub, self, o)

    def __rsub__(self, o):
        return binop(operator.sub, o, self)

    def __mul__(self, o):
        return binop(operator.mul, self, o)

    def __rmul__(self, o):
        return binop(operator.mul, o, self)

    def __truediv__(self, o):
        return binop(div_, self, o)

    def __rtruediv__(self, o):
        return binop(div_, o, self)

    def __floordiv__(self, o):
        return binop(lambda a, b: lift(a) // b, self, o)

    def __rfloordiv__(self, o):
        return binop(lambda a, b: lift(a) // b, o, self)

    def __mod__(self, o):
        return binop(lambda a, b: lift(a) % b, self, o)

    def __pow__(self, o):
        return binop(lambda a, b: lift(a) ** b, self, o)

    def __rpow__(self, o):
        return binop(lambda a, b: lift(a) ** b, o, self)

    def __and__(self, o):
        return ewise(lambda a, b: b_and(tb(a), tb(b)), self, o)

    __rand__ = __and__

    def __or__(self, o):
        return ewise(lambda a, b: b_or(tb(a), tb(b)), self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return ewise(lambda a, b: b_not(b_eq(tb(a), tb(b))), self, o)

    __rxor__ = __xor__

    def __invert__(self):
        if self.kind != 'b':
            raise Unsupported('invert of non-bool')
        return umap(b_not, self)

    def __neg__(self):
        if self.kind == 'b':
            raise TypeError('The numpy boolean negative, the `-` operator, is not supported')
        return umap(lambda v: -v, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return umap(abs_, self)

    def _iop(self, f, o, truediv=False):
        r = binop(f, self, o)
        rk = r.kind if isinstance(r, SArray) else kind_of([r])
        order = {'b': 0, 'i': 1, 'f': 2, 'O': 3}
        if order[rk] > order[self.kind] and self.kind in 'bi':
            raise TypeError(f"Cannot cast ufunc output from {rk} to {self.kind} with casting rule 'same_kind'")
        self.base_()[...] = r.base_() if isinstance(r, SArray) else r
        return self

    def __iadd__(self, o):
        return self._iop(operator.add, o)

    def __isub__(self, o):
        return self._iop(operator.sub, o)

    def __imul__(self, o):
        return self._iop(operator.mul, o)

    def __itruediv__(self, o):
        return self._iop(div_, o)

    def __iand__(self, o):
        self.base_()[...] = (self & o).base_()
        return self

    def __ior__(self, o):
        self.base_()[...] = (self | o).base_()
        return self


_NARROW = {'int8': (8, True), 'uint8': (8, False), 'int16': (16, True), 'uint16': (16, False), 'int32': (32, True), 'uint32': (32, False),
           'float32': (32, 'f'), 'float16': (16, 'f'), 'f4': (32, 'f'), 'f2': (16, 'f'), 'single': (32, 'f'), 'half': (16, 'f'),
           'i1': (8, True), 'u1': (8, False), 'i2': (16, True), 'u2': (16, False), 'i4': (32, True), 'u4': (32, False)}


def width(t):
    """(bits, signed) of a dtype-like that names an integer type narrower than 64 bits"""
    if t is None:
        return None
    if isinstance(t, _DtypeShim):
        return t.w
    n = t if isinstance(t, str) else getattr(t, 'name', None) or getattr(t, '__name__', '')
    return _NARROW.get(n)


def narrow_el(v, w):
    """value of an element stored in w: reduced modulo 2**bits; floats are rounded (fixed numbers only)"""
    n = lift(v)
    if n.sp or isinstance(n, fp.FPNum):
        return n
    bits, signed = w
    if signed == 'f':
        if n.is_const():
            with rnp.errstate(all='ignore'):
                r = float((rnp.float32 if bits == 32 else rnp.float16)(float(n.c)))
            return lift(r)
        return Num(n.c, n.f, 'f', n.sp)
    size = 1 << bits
    lo = -(size >> 1) if signed else 0
    n = n.red() if isinstance(n, Num) else n
    if n.is_const():
        return n if lo <= n.c < lo + size else Num(Fraction((int(n.c) - lo) % size + lo), (), 'i')
    p = n.poly()
    b = p.bounds() if p is not None else None
    if b is not None and b[0] is not None and b[1] is not None and lo <= b[0] and b[1] < lo + size:
        return n
    if bool(n >= lo) and bool(n < lo + size):
        return n
    mode, core.FPMODE = core.FPMODE, False
    try:
        f = ((n - lo) / size).floor()
        r = n - f * size
    finally:
        core.FPMODE = mode
    return Num(r.c, r.f, 'i')


def _narrow_type(name):
    w = _NARROW[name]
    if w[1] == 'f':
        return type(name, (float,), {'__new__': lambda cls, v=0.0: narrow_el(v, w), '__module__': 'numpy'})
    return type(name, (int,), {'__new__': lambda cls, v=0: narrow_el(lift(v).trunc(), w), '__module__': 'numpy'})


_NARROWS = {n: _narrow_type(n) for n in _NARROW if n.startswith(('int', 'uint', 'float', 'single', 'half'))}


class _DtypeShim:
    """what code under test sees as a.dtype"""

    def __init__(self, k, w=None):
        self.k = k
        self.kind = k
        self.w = w
        self.type = {'b': bool, 'i': int, 'f': float, 'O': object}[k]
        self.__name__ = {'b': 'bool', 'i': 'int64', 'f': 'float64', 'O': 'object'}[k]
        self.name = self.__name__

    def __eq__(self, o):
        return kchar(o) == self.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f"dtype('{self.__name__}')"


def kchar(t):
    """kind character of a dtype-like"""
    if t is None:
        return None
    if isinstance(t, _DtypeShim):
        return t.k
    if isinstance(t, rnp.dtype):
        return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}.get(t.kind, 'O')
    n = t if isinstance(t, str) else getattr(t, '__name__', str(t))
    if n.startswith('bool') or n == '?':
        return 'b'
    if n.startswith('int') or n.startswith('uint') or n in ('i', 'i8', 'intp', 'integer'):
        return 'i'
    if n.startswith('float') or n in ('f', 'f8', 'f4', 'f2', 'single', 'half', 'd', 'double', 'number', 'floating'):
        return 'f'
    return 'O'


def get_dtype(a):
    return _DtypeShim(a.kind, a._w)


def wrap(x, kind=None):
    """real numpy result -> SArray with canonical elements"""
    if isinstance(x, tuple):
        return tuple(wrap(v) for v in x)
    if isinstance(x, SArray):
        return x
    if isinstance(x, SMasked):
        return x
    if isinstance(x, rnp.ndarray):
        if x.dtype != object:
            k = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}.get(x.dtype.kind, 'O')
            o = rnp.empty(x.shape, dtype=object)
            of = o.reshape(-1)
            for i, v in enumerate(x.reshape(-1).tolist()):
                of[i] = norm_el(v)
            r = o.view(SArray)
            r._k = k
            return r
        o = x
        of = o.reshape(-1) if o.flags.c_contiguous else None
        if of is not None:
            for i in range(of.size):
                of[i] = norm_el(of[i])
        else:
            for ix in rnp.ndindex(*o.shape):
                o[ix] = norm_el(o[ix])
        r = o.view(SArray)
        r._k = kind
        return r
    if isinstance(x, (rnp.generic, int, float)) and not isinstance(x, bool):
        return norm_el(x)
    return x


def mk(els, shape, kind=None):
    o = rnp.empty(len(els), dtype=object)
    for i, v in enumerate(els):
        o[i] = norm_el(v)
    r = o.reshape(shape).view(SArray)
    r._k = kind
    return r


def toitem(v):
    """Python scalar of an element (tolist)"""
    if isinstance(v, Num) and v.is_const():
        if v.kind == 'i':
            return int(v.c)
        return Num(v.c, v.f, v.kind, v.sp, True)
    return v


def tolist(b):
    if b.ndim == 0:
        return toitem(b.item())
    if b.ndim == 1:
        return [toitem(v) for v in rnp.ndarray.__iter__(b)]
    return [tolist(b[i]) for i in range(len(b))]


def build(obj):
    """nested sequence -> object ndarray (base) of canonical elements"""
    if isinstance(obj, SMasked):
        obj = obj.concrete()
    if isinstance(obj, SArray):
        return obj.base_().copy(), obj.kind
    if isinstance(obj, rnp.ndarray):
        w = wrap(obj.copy())
        return w.base_(), w.kind
    if isinstance(obj, (list, tuple, range)):
        subs = [build(v) for v in obj]
        if not subs:
            return rnp.empty((0,), dtype=object), 'f'
        shp = subs[0][0].shape
        if any(s[0].shape != shp for s in subs):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous '
                             'shape after 1 dimensions.')
        o = rnp.empty((len(subs),) + shp, dtype=object)
        for i, s in enumerate(subs):
            o[i] = s[0] if shp else s[0].item()
        ks = [s[1] for s in subs]
        k = 'O' if 'O' in ks else 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'
        if k in 'if':
            of = o.reshape(-1)
            for i in range(of.size):
                if isb(of[i]):
                    of[i] = norm_el(lift(of[i]))
        return o, k
    if hasattr(obj, '__array__') and not isinstance(obj, (rnp.generic,)):
        return build(obj.__array__())
    if hasattr(obj, 'values') and not isinstance(obj, (Num, SymB)) and not callable(obj.values):
        return build(obj.values)
    v = norm_el(obj)
    o = rnp.empty((), dtype=object)
    o[()] = v
    return o, kind_of([v])


def asarr(x, kind=None):
    if isinstance(x, SArray) and (kind is None or x.kind == kind):
        return x
    o, k = build(x)
    r = o.view(SArray)
    r._k = k
    if kind is not None and kind != k:
        return np_astype(r, {'b': bool, 'i': int, 'f': float, 'O': object}[kind])
    return r


def scalar(a):
    """0-d array -> element"""
    if isinstance(a, SArray) and a.ndim == 0:
        return a.base_().item()
    return a


# ---------------------------------------------------------------- elementwise
def tb(v):
    if isb(v):
        return v
    return lift(v) != 0


def eq_(a, b):
    if isinstance(a, Num) or isinstance(b, Num):
        return a == b if isinstance(a, Num) else b == a
    if isb(a) and isb(b):
        return b_eq(a, b)
    if isinstance(a, SymB):
        return a == b
    if isinstance(b, SymB):
        return b == a
    r = a == b
    return r


def abs_(v):
    return v if isb(v) else abs(v) if hasattr(v, 'mod') else abs(lift(v))


def div_(a, b):
    return lift(a) / b


def _opnd(x):
    if isinstance(x, SArray):
        return x.base_()
    if isinstance(x, SMasked):
        return x.concrete().base_()
    if isinstance(x, (list, tuple)):
        return build(x)[0]
    if isinstance(x, rnp.ndarray):
        return wrap(x).base_()
    o = rnp.empty((), dtype=object)
    o[()] = norm_el(x)
    return o


def _mixable(*xs):
    for x in xs:
        if isinstance(x, SMasked):
            return x
    return None


def ewise(f, *xs):
    m = _mixable(*xs)
    if m is not None:
        r = m.ewise(f, xs)
        if r is not None:
            return r
    bs = rnp.broadcast_arrays(*[_opnd(x) for x in xs])
    out = rnp.empty(bs[0].shape, dtype=object)
    of = out.reshape(-1)
    fl = [b.reshape(-1) if b.flags.c_contiguous else b.flatten() for b in bs]
    for i in range(of.size):
        of[i] = norm_el(f(*[g[i] for g in fl]))
    if out.ndim == 0 and not any(isinstance(x, (SArray,)) and x.ndim > 0 for x in xs):
        return out.item()
    r = out.view(SArray)
    r._k = None
    if of.size == 0:
        r._k = 'f'
    return r


def _npn(v):
    """numpy semantic operand: bool + bool etc. handled by SymB; python bools -> keep"""
    return v


def binop(f, a, b):
    if isinstance(a, str) or isinstance(b, str):
        raise TypeError('string operand')

    def g(x, y):
        if isinstance(x, bool) and isinstance(y, bool):
            if f is operator.add:
                return x or y
            if f is operator.mul:
                return x and y
            if f is operator.sub:
                raise TypeError('numpy boolean subtract')
        if isinstance(x, bool) and not isinstance(y, (SymB,)):
            x = lift(x)
        if isinstance(y, bool) and not isinstance(x, SymB):
            y = lift(y)
        if isinstance(x, SymB) and isinstance(y, bool):
            return f(x, y) if f in (operator.add, operator.mul) else f(x.num(), y)
        return f(x, y)
    r = ewise(g, a, b)
    w = _joint(a, b) if f in (operator.add, operator.sub, operator.mul) else None
    if w is not None and isinstance(r, SArray):
        r = ewise(lambda v: narrow_el(v, w), r)
        r._k, r._w = 'f' if w[1] == 'f' else 'i', w
    return r


def _joint(a, b):
    """width of the result of arithmetic between integer arrays (a Python number does not widen)"""
    ws = []
    for v in (a, b):
        if isinstance(v, SArray):
            if v._w is None:
                return None
            ws.append(v._w)
        elif isinstance(v, (list, tuple, rnp.ndarray, SMasked)) or (isinstance(v, Num) and not v.is_const()) or isinstance(v, float) or (isinstance(v, Num) and v.kind == 'f'):
            return None
    if not ws or len(set(w[1] for w in ws)) > 1:
        return None
    return max(ws)


def umap(f, a):
    a = asarr(a)
    return ewise(f, a)


_UF = {}


def ufunc_impl(name):
    def reg(f):
        _UF[name] = f
        return f
    return reg


for _n, _f in dict(add=operator.add, subtract=operator.sub, multiply=operator.mul, true_divide=div_, divide=div_,
                   floor_divide=lambda a, b: lift(a) // b, remainder=lambda a, b: lift(a) % b,
                   power=lambda a, b: lift(a) ** b).items():
    _UF[_n] = (lambda f: lambda a, b: binop(f, a, b))(_f)
for _n, _f in dict(equal=eq_, not_equal=lambda a, b: b_not(eq_(a, b)), less=operator.lt, less_equal=operator.le,
                   greater=operator.gt, greater_equal=operator.ge,
                   logical_and=lambda a, b: b_and(tb(a), tb(b)), logical_or=lambda a, b: b_or(tb(a), tb(b)),
                   logical_xor=lambda a, b: b_not(b_eq(tb(a), tb(b))),
                   bitwise_and=lambda a, b: b_and(tb(a), tb(b)), bitwise_or=lambda a, b: b_or(tb(a), tb(b)),
                   minimum=s_min, maximum=s_max, fmin=s_min, fmax=s_max).items():
    _UF[_n] = (lambda f: lambda a, b: ewise(f, a, b))(_f)


def _sign(v):
    v = lift(v)
    return lift(v > 0) - lift(v < 0)


for _n, _f in dict(negative=lambda v: -lift(v), absolute=abs_, fabs=abs_, sqrt=num_sqrt, log=num_log,
                   square=lambda v: lift(v) ** 2, sign=_sign, logical_not=lambda v: b_not(tb(v)), invert=b_not,
                   isnan=lambda v: lift(v).sp == 'nan', isinf=lambda v: lift(v).sp in ('inf', '-inf'),
                   isfinite=lambda v: lift(v).sp is None, floor=lambda v: lift(v).floor(),
                   ceil=lambda v: lift(v).ceil(), trunc=lambda v: lift(v).trunc(), rint=lambda v: lift(v).rint(),
                   positive=lambda v: v, reciprocal=lambda v: lift(1) / lift(v), conjugate=lambda v: v,
                   deg2rad=lambda v: lift(v) * PI() / 180, rad2deg=lambda v: lift(v) * 180 / PI()).items():
    _UF[_n] = (lambda f: lambda a: ewise(f, a))(_f)
_UF['abs'] = _UF['absolute']
_UF['log1p'] = lambda a: ewise(lambda v: num_log(lift(v) + 1), a)
_UF['log2'] = lambda a: ewise(lambda v: num_log(v) / num_log(2), a)
_UF['log10'] = lambda a: ewise(lambda v: num_log(v) / num_log(10), a)


def PI():
    p = core.z3.Real('PI')
    at = core.new_atom(('fresh', 'PI'), p, 'real', nonneg=True,
                       defs=(p > core._rv(Fraction(314159, 100000)), p < core._rv(Fraction(314160, 100000))))
    return Num.of_poly(core.Poly.atom(at))


def _atan2(y, x):
    return STUB['arctan2'](y, x)


STUB = {}
_UF['arctan2'] = lambda a, b: ewise(_atan2, a, b)


def array_ufunc(uf, method, ins, kw):
    f = _UF.get(uf.__name__)
    if f is None:
        raise Unsupported(f'ufunc {uf.__name__}')
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    if method == '__call__':
        r = f(*ins)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if where is not True:
                r = NP.where(where, r, o)
            setitem(o, Ellipsis, r)
            return o
        return r
    if method == 'reduce':
        a = asarr(ins[0])
        axis = kw.get('axis', 0)
        n = uf.__name__
        if n == 'add':
            return np_sum(a, axis, kw.get('keepdims', False))
        return reduce_(a, lambda x, y: f(x, y), axis, None)
    if method == 'outer':
        a, b = asarr(ins[0]), asarr(ins[1])
        return f(a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at':
        a, ix = ins[0], ins[1]
        v = ins[2] if len(ins) > 2 else None
        return ufunc_at(f, a, ix, v)
    if method == 'accumulate' and uf.__name__ == 'add':
        return np_cumsum(asarr(ins[0]), kw.get('axis', 0))
    raise Unsupported(f'ufunc method {method}')


def ufunc_at(f, a, ix, v):
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = [asarr(i) for i in ix]
    bs = rnp.broadcast_arrays(*[i.base_() for i in ix])
    vs = None if v is None else rnp.broadcast_to(_opnd(v), bs[0].shape).flatten()
    for n, idx in enumerate(zip(*[b.flatten() for b in bs])):
        idx = tuple(idx)
        cur = getitem(a, idx)
        setitem(a, idx, f(cur, vs[n]) if vs is not None else f(cur))


# ---------------------------------------------------------------- indexing
def _is_symint(i):
    return isinstance(i, Num) and not i.is_const()


def _clean_ix(i):
    """concrete python index from constants"""
    if isinstance(i, Num):
        i = i.red()
        if i.is_const():
            return i.__index__()
        return i
    if isinstance(i, SArray):
        if i.kind == 'b':
            els = i._flat()
            els2 = [core._red(e) if isinstance(e, SymB) else e for e in els]
            if all(isinstance(e, bool) for e in els2):
                return rnp.array(els2, dtype=bool).reshape(i.shape)
            return i
        els = [e.red() if isinstance(e, Num) else e for e in i._flat()]
        if i.size == 0:
            return rnp.zeros(i.shape, dtype=int)
        if all(isinstance(e, Num) and e.is_const() for e in els):
            if any(e.kind != 'i' for e in els):
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            r = rnp.array([int(e.c) for e in els], dtype=int).reshape(i.shape)
            return r if i.ndim else int(r)
        return i
    if isinstance(i, SMasked):
        return _clean_ix(i.concrete())
    if isinstance(i, (list,)):
        if len(i) == 0:
            return rnp.zeros(0, dtype=int)
        return _clean_ix(asarr(i))
    if isinstance(i, range):
        return rnp.array(list(i), dtype=int)
    if isinstance(i, slice):
        def c(v):
            if isinstance(v, Num):
                return v.__index__()
            return v
        return slice(c(i.start), c(i.stop), c(i.step))
    return i


def getitem(a, ix):
    b = a.base_()
    tup = ix if isinstance(ix, tuple) else (ix,)
    cl = [_clean_ix(i) for i in tup]
    sym = [i for i in cl if isinstance(i, (Num, SArray, SymB))]
    if not sym:
        r = b[tuple(cl) if isinstance(ix, tuple) else cl[0]]
        if isinstance(r, rnp.ndarray) and (r.ndim or Ellipsis in [c for c in cl if c is Ellipsis]):
            r = r.view(SArray)
            r._k = a._k
            r._w = a._w
            return r
        return r if not isinstance(r, rnp.ndarray) else r.item()
    # boolean mask (single)
    if len(cl) == 1 and isinstance(cl[0], SArray) and cl[0].kind == 'b':
        return mask_get(a, cl[0])
    if any(isinstance(i, SArray) and i.kind == 'b' for i in cl):
        # mask combined with other indices: decide the mask
        cl = [rnp.array([bool(e) for e in i._flat()], dtype=bool).reshape(i.shape)
              if isinstance(i, SArray) and i.kind == 'b' else i for i in cl]
        return getitem(a, tuple(cl))
    # symbolic integer scalars / arrays
    if all(isinstance(i, (Num, int, rnp.integer)) for i in cl):
        return _sym_scalar_get(a, cl)
    if len(cl) == 1 and isinstance(cl[0], SArray):
        idx = cl[0]
        parts = [getitem(a, (e,)) for e in idx._flat()]
        if a.ndim == 1:
            r = mk(parts, idx.shape)
            return r
        return asarr([p for p in parts]).reshape(idx.shape + a.shape[1:])
    if len(cl) <= a.ndim and isinstance(cl[0], Num) and all(isinstance(i, (slice, int, Num)) for i in cl[1:]):
        # a[sym, :...]
        def get(v):
            return getitem(a, tuple([v] + cl[1:]))
        return _sym_select(cl[0], a.shape[0], get)
    if all(isinstance(i, (SArray, Num, int, rnp.ndarray, list)) for i in cl):
        bs = rnp.broadcast_arrays(*[asarr(i).base_() for i in cl])
        parts = [getitem(a, tuple(t)) for t in zip(*[x.flatten() for x in bs])]
        return asarr(parts).reshape(bs[0].shape + a.shape[len(cl):])
    # general: concretise
    def conc(i):
        if isinstance(i, Num):
            return i.__index__()
        if isinstance(i, SArray):
            return rnp.array([e.__index__() for e in i._flat()], dtype=int).reshape(i.shape)
        return i
    return getitem(a, tuple(conc(i) for i in cl))


def _sym_range(i, n):
    """feasible concrete values of a symbolic index by bounds; forks on out of range"""
    p = i.poly()
    b = p.bounds() if p is not None else None
    if b is None or b[0] < -n or b[1] >= n:
        if bool(b_or(i < -n, i >= n)):
            raise IndexError(f'index out of bounds for axis with size {n}')
        lo = -n if b is None or b[0] < 0 else 0
        hi = n - 1
        if b is not None:
            lo, hi = max(lo, int(b[0])), min(hi, int(b[1]))
    else:
        lo, hi = int(b[0]), int(b[1])
    return range(lo, hi + 1)


def _sym_select(i, n, get):
    vals = []
    for v in _sym_range(i, n):
        c = i == v
        if c is False:
            continue
        vals.append((c, v))
        if c is True:
            vals = [(c, v)]
            break
    if not vals:
        raise core.Infeasible()
    res = get(vals[-1][1])
    for c, v in reversed(vals[:-1]):
        w = get(v)
        if isinstance(w, SArray):
            res = ewise(lambda x, y: ite(c, x, y), w, res)
        else:
            res = ite(c, w, res)
    return res


def _sym_scalar_get(a, cl):
    def rec(prefix, rest):
        if not rest:
            r = a.base_()[tuple(prefix)]
            if isinstance(r, rnp.ndarray):
                r = r.view(SArray)
                r._k = a._k
            return r
        i = rest[0]
        if not isinstance(i, Num):
            return rec(prefix + [int(i)], rest[1:])
        return _sym_select(i, a.shape[len(prefix)], lambda v: rec(prefix + [v], rest[1:]))
    return rec([], cl)


def conv_in(a, v):
    """value converted for storage in array a (integer truncation etc.)"""
    k = a.kind
    v = norm_el(scalar(v) if isinstance(v, SArray) else v)
    if k == 'O':
        return v
    if isinstance(v, str):
        raise ValueError(f'could not convert string to float: {v!r}')
    if v is None:
        if k == 'f':
            return NAN
        raise TypeError('None')
    if k == 'f':
        n = lift(v)
        if n is NotImplemented:
            raise ValueError('setting an array element with a sequence.')
        if a._w is not None and a._w[1] == 'f':
            return narrow_el(n, a._w)
        return n if isinstance(n, fp.FPNum) else Num(n.c, n.f, 'f', n.sp)
    if k == 'i':
        n = lift(v)
        if n.sp:
            if n.sp == 'nan':
                raise ValueError('cannot convert float NaN to integer')
            raise OverflowError('cannot convert float infinity to integer')
        return n.trunc() if a._w is None else narrow_el(n.trunc(), a._w)
    if k == 'b':
        return tb(v)
    return v


def setitem(a, ix, v):
    b = a.base_()
    tup = ix if isinstance(ix, tuple) else (ix,)
    cl = [_clean_ix(i) for i in tup]
    sym = [i for i in cl if isinstance(i, (Num, SArray, SymB))]
    if isinstance(v, SMasked):
        v = v.concrete()
    if not sym:
        key = tuple(cl) if isinstance(ix, tuple) else cl[0]
        tgt = b[key]
        if isinstance(tgt, rnp.ndarray):
            if isinstance(v, (SArray, rnp.ndarray, list, tuple, range)):
                va = asarr(v)
                o = rnp.empty(va.shape, dtype=object)
                of, vf = o.reshape(-1), va._flat()
                for i, e in enumerate(vf):
                    of[i] = conv_in(a, e)
                b[key] = o
            else:
                o = rnp.empty((), dtype=object)
                o[()] = conv_in(a, v)
                b[key] = o
        else:
            if isinstance(v, SArray):
                if v.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                v = v._flat()[0]
            b[key] = conv_in(a, v)
        return
    if len(cl) == 1 and isinstance(cl[0], SArray) and cl[0].kind == 'b':
        m = cl[0]
        scal = not isinstance(v, (SArray, rnp.ndarray, list, tuple)) or asarr(v).size == 1
        if scal:
            v = scalar(asarr(v).reshape(())) if isinstance(v, (SArray, rnp.ndarray, list, tuple)) else v
            cv = conv_in(a, v)
            for pos in rnp.ndindex(*m.shape):
                g = m.base_()[pos]
                if a.ndim == m.ndim:
                    b[pos] = conv_in(a, ite(g, cv, b[pos]))
                else:
                    sub = b[pos]
                    for q in rnp.ndindex(*sub.shape):
                        sub[q] = conv_in(a, ite(g, cv, sub[q]))
            return
        cl = [rnp.array([bool(e) for e in m._flat()], dtype=bool).reshape(m.shape)]
        return setitem(a, cl[0], v)
    if all(isinstance(i, (Num, int, rnp.integer)) for i in cl) and len(cl) == a.ndim:
        cv = conv_in(a, v)
        cands = []
        for d, i in enumerate(cl):
            if isinstance(i, Num):
                cands.append([(i == x, x) for x in _sym_range(i, a.shape[d])])
            else:
                cands.append([(True, int(i))])
        for combo in itertools.product(*cands):
            g = True
            for c, _ in combo:
                g = b_and(g, c)
                if g is False:
                    break
            if g is False:
                continue
            pos = tuple(x for _, x in combo)
            b[pos] = conv_in(a, ite(g, cv, b[pos]))
        return

    def conc(i):
        if isinstance(i, Num):
            return i.__index__()
        if isinstance(i, SArray):
            if i.kind == 'b':
                return rnp.array([bool(e) for e in i._flat()], dtype=bool).reshape(i.shape)
            return rnp.array([e.__index__() for e in i._flat()], dtype=int).reshape(i.shape)
        return i
    setitem(a, tuple(conc(i) for i in cl), v)


# ---------------------------------------------------------------- lazily masked selections
class SMasked:
    """a[mask] with a symbolic mask: guarded elements (rows); concretised on demand by forking on guards"""

    def __init__(self, guards, vals, kind):
        self.g = guards
        self.v = vals
        self._c = None
        self._kind = kind

    def concrete(self):
        if self._c is None:
            keep = [i for i, g in enumerate(self.g) if bool(g)]
            self._c = self.v[rnp.array(keep, dtype=int)] if len(keep) else self.v[0:0]
        return self._c

    def ewise(self, f, xs):
        if self._c is not None or self.v.ndim != 1:
            return None
        other = []
        for x in xs:
            if isinstance(x, SMasked):
                if len(x.g) != len(self.g) or any(a is not b and not (isinstance(a, SymB) and isinstance(b, SymB) and a.z.eq(b.z)) for a, b in zip(x.g, self.g)):
                    return None
                other.append(x.v)
            elif isinstance(x, (SArray, rnp.ndarray, list, tuple)):
                if asarr(x).size != 1:
                    return None
                other.append(asarr(x))
            else:
                other.append(x)
        try:
            r = ewise(f, *other)
        except ZeroDivisionError:
            return None
        return SMasked(self.g, r, None)

    def sum(self, axis=None, **kw):
        if self._c is not None or self.v.ndim != 1:
            return self.concrete().sum(axis)
        tot = lift(0)
        for g, e in zip(self.g, self.v._flat()):
            if isb(e):
                e = b_and(g, e)
                tot = tot + lift(e)
            else:
                tot = tot + ite(g, e, Num(F0, (), lift(e).kind))
        tot.py = False
        return tot

    def any(self, axis=None, **kw):
        if self.v.ndim != 1:
            return self.concrete().any(axis)
        return b_any([b_and(g, tb(e)) for g, e in zip(self.g, self.v._flat())])

    def all(self, axis=None, **kw):
        if self.v.ndim != 1:
            return self.concrete().all(axis)
        return b_all([b_or(b_not(g), tb(e)) for g, e in zip(self.g, self.v._flat())])

    def nsel(self):
        t = lift(0)
        for g in self.g:
            t = t + lift(g)
        return t

    @property
    def size(self):
        return self.nsel() if self.v.ndim == 1 else self.concrete().size

    def __len__(self):
        return int(self.nsel())

    @property
    def kind(self):
        return self.v.kind

    def __iter__(self):
        return iter(self.concrete())

    def __getitem__(self, ix):
        return self.concrete()[ix]

    def __setitem__(self, ix, v):
        self.concrete()[ix] = v

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.concrete(), n)

    def __bool__(self):
        return bool(self.concrete())

    def __repr__(self):
        return '<masked>'


def _masked_ops():
    for n in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__add__', '__radd__', '__sub__',
              '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__floordiv__', '__mod__', '__pow__',
              '__and__', '__or__', '__xor__', '__invert__', '__neg__', '__abs__', '__matmul__'):
        def f(self, *a, _n=n):
            if len(a) == 1 and self._c is None and self.v.ndim == 1:
                op = {'__eq__': eq_, '__ne__': lambda x, y: b_not(eq_(x, y)), '__lt__': operator.lt,
                      '__le__': operator.le, '__gt__': operator.gt, '__ge__': operator.ge,
                      '__and__': lambda x, y: b_and(tb(x), tb(y)), '__or__': lambda x, y: b_or(tb(x), tb(y)),
                      '__add__': operator.add, '__sub__': operator.sub, '__mul__': operator.mul,
                      '__rmul__': lambda x, y: y * x, '__radd__': lambda x, y: y + x,
                      '__rsub__': lambda x, y: y - x}.get(_n)
                if op is not None:
                    r = self.ewise(op, (self, a[0]))
                    if r is not None:
                        return r
            return getattr(self.concrete(), _n)(*a)
        setattr(SMasked, n, f)
    SMasked.__hash__ = None


_masked_ops()


def mask_get(a, m):
    if m.ndim > 1:
        if m.shape != a.shape[:m.ndim]:
            raise IndexError('boolean index did not match indexed array')
        v = a.base_().reshape((-1,) + a.shape[m.ndim:])
        v = v.view(SArray)
        v._k = a._k
    else:
        if m.shape[0] != a.shape[0]:
            raise IndexError(f'boolean index did not match indexed array along axis 0; size of axis is {a.shape[0]} '
                             f'but size of corresponding boolean axis is {m.shape[0]}')
        v = a
    els = m._flat()
    if any(isinstance(e, fp.WBool) for e in els) and all(isinstance(e, (bool, fp.WBool)) for e in els):
        r = v.base_()[rnp.array([bool(e) for e in els], dtype=bool)].view(SArray)
        r._k = a._k
        return r
    return SMasked(els, v, a.kind)


# ---------------------------------------------------------------- numpy functions
def _axis_iter(a, axis):
    """list of 1-d element lists along axis, and the result shape"""
    b = a.base_()
    if axis is None:
        return [list(b.reshape(-1))], ()
    if isinstance(axis, Num):
        axis = int(axis)
    mv = rnp.moveaxis(b, axis, -1)
    shp = mv.shape[:-1]
    return [list(mv[ix]) for ix in rnp.ndindex(*shp)], shp


def reduce_(a, f, axis, init):
    if isinstance(a, SMasked):
        a = a.concrete()
    if isinstance(axis, tuple):
        r = a
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            r = reduce_(asarr(r), f, ax, init)
        return r
    lists, shp = _axis_iter(a, axis)
    out = []
    for els in lists:
        if not els:
            if init is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            out.append(init)
            continue
        acc = els[0]
        for e in els[1:]:
            acc = f(acc, e)
        out.append(acc)
    if axis is None:
        return norm_el(out[0])
    r = mk(out, shp)
    return r if shp else norm_el(out[0])


def sum_els(els):
    """sum merging polynomials in one go"""
    t = {}
    fr = []
    rest = None
    kind = 'i'
    for e in els:
        n = lift(e)
        if n.kind == 'f':
            kind = 'f'
        if n.sp or isinstance(n, fp.FPNum):
            return _slow_sum(els)
        if not n.f:
            v = t.get((), F0) + n.c
            if v:
                t[()] = v
            else:
                t.pop((), None)
        elif len(n.f) == 1 and n.f[0][1] == 1:
            for m, c in n.f[0][0].t.items():
                v = t.get(m, F0) + c * n.c
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        else:
            fr.append(n)
    if len(fr) > 2 and core.FRACLIM is not None:
        fr2 = []
        for n in fr:
            n = core.atomise(n)
            q = n.poly()
            if q is not None:
                for m, c in q.t.items():
                    v = t.get(m, F0) + c
                    if v:
                        t[m] = v
                    else:
                        t.pop(m, None)
            else:
                fr2.append(n)
        fr = fr2
    for n in fr:
        rest = n if rest is None else rest + n
    r = Num.of_poly(core.Poly(t), kind) if t else Num(F0, (), kind)
    if rest is not None:
        r = r + rest
    r.py = False
    return r


def _slow_sum(els):
    acc = Num(F0, (), 'i')
    for e in els:
        acc = acc + lift(e)
    acc.py = False
    return acc


def np_sum(a, axis=None, keepdims=False, dtype=None, **kw):
    if isinstance(a, SMasked):
        return a.sum(axis)
    if not isinstance(a, (SArray, list, tuple, rnp.ndarray)) and hasattr(a, '__iter__'):
        a = list(a)
    a = asarr(a)
    if isinstance(axis, tuple):
        r = a
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            r = asarr(np_sum(r, ax))
        return scalar(r)
    lists, shp = _axis_iter(a, axis)
    out = [sum_els(l) for l in lists]
    k = 'f' if a.kind == 'f' else 'i'
    for o in out:
        if k == 'f' and not o.sp:
            o.kind = 'f'
    if axis is None:
        return out[0]
    r = mk(out, shp, k)
    if keepdims:
        ax = axis % a.ndim
        r = r.reshape(shp[:ax] + (1,) + shp[ax:])
        r._k = k
    return r if r.ndim else out[0]


def _count(a, axis):
    if axis is None:
        return a.size
    return a.shape[axis]


def np_mean(a, axis=None, keepdims=False, **kw):
    a = asarr(a)
    n = _count(a, axis)
    return np_sum(a, axis, keepdims) / lift(n)


def np_var(a, axis=None, ddof=0, **kw):
    a = asarr(a)
    m = np_mean(a, axis, True) if axis is not None else np_mean(a)
    d = (a - m)
    return np_sum(d * d, axis) / lift(_count(a, axis) - ddof)


def np_std(a, axis=None, ddof=0, **kw):
    v = np_var(a, axis, ddof)
    return umap(num_sqrt, v) if isinstance(v, SArray) else num_sqrt(v)


def np_cumsum(a, axis=None, **kw):
    a = asarr(a)
    if axis is None:
        a = a.flatten()
        axis = 0
    b = rnp.moveaxis(a.base_().copy(), axis, 0)
    for i in range(1, b.shape[0]):
        b[i] = ewise(operator.add, wrap(b[i]), wrap(b[i - 1])).base_() if b.ndim > 1 else lift(b[i]) + b[i - 1]
    return wrap(rnp.moveaxis(b, 0, axis).copy(), 'f' if a.kind == 'f' else 'i')


def np_arg(a, axis, better):
    a = asarr(a)
    lists, shp = _axis_iter(a, axis)
    out = []
    for els in lists:
        best = 0
        for i in range(1, len(els)):
            if bool(better(*[v if hasattr(v, 're') and hasattr(v, 'mod') else lift(v) for v in (els[best], els[i])])):
                best = i
        out.append(Num(Fraction(best), (), 'i'))
    return out[0] if not shp else mk(out, shp, 'i')


def _merge_sorted(els, lt):
    """stable insertion sort of indices (forks on comparisons)"""
    order = []
    for i in range(len(els)):
        j = len(order)
        while j > 0 and bool(lt(els[i], els[order[j - 1]])):
            j -= 1
        order.insert(j, i)
    return order


def _lt(x, y):
    if isinstance(x, (Num, SymB, bool)) and isinstance(y, (Num, SymB, bool)):
        return lift(x) < lift(y)
    return x < y


def _numpy_ties(l, o, k, how):
    """the order in which numpy itself leaves equal elements: sort the dense ranks on this path with it"""
    if len(l) < 2:
        return o
    rank = [0] * len(l)
    for x, y in zip(o, o[1:]):
        rank[y] = rank[x] + bool(_lt(l[x], l[y]))
    if rank[o[-1]] == len(l) - 1:
        return o
    return rnp.argsort(rnp.array(rank, dtype=rnp.int64 if k in 'ib' else rnp.float64), kind=how).tolist()


def np_argsort(a, axis=-1, kind=None, **kw):
    a = asarr(a)
    if axis is None:
        a = a.flatten()
        axis = 0
    lists, shp = _axis_iter(a, axis)
    outs = [_merge_sorted(l, _lt) for l in lists]
    if kind not in ('stable', 'mergesort'):
        outs = [_numpy_ties(l, o, a.kind, kind) for l, o in zip(lists, outs)]
    if a.ndim == 1:
        return mk(outs[0], (len(outs[0]),), 'i')
    r = rnp.empty(shp + (a.shape[axis],), dtype=object)
    for ix, o in zip(rnp.ndindex(*shp), outs):
        for q, v in enumerate(o):
            r[ix + (q,)] = norm_el(v)
    return wrap(rnp.moveaxis(r, -1, axis).copy(), 'i')


def np_sort(a, axis=-1, kind=None, **kw):
    a = asarr(a)
    if axis is None:
        a = a.flatten()
        axis = 0
    lists, shp = _axis_iter(a, axis)
    r = rnp.empty(shp + (a.shape[axis],), dtype=object)
    for ix, l in zip(rnp.ndindex(*shp), lists):
        for q, v in enumerate(_merge_sorted(l, _lt)):
            r[ix + (q,)] = l[v]
    return wrap(rnp.moveaxis(r, -1, axis).copy(), a.kind)


def np_nonzero(a):
    a = asarr(a)
    keep = [bool(tb(e)) for e in a._flat()]
    m = rnp.array(keep, dtype=bool).reshape(a.shape)
    return tuple(wrap(x) for x in rnp.nonzero(m))


def tobool(a):
    return ewise(tb, a)


def np_astype(a, t):
    k = kchar(t)
    if k == 'O':
        r = a.copy()
        r._k = 'O'
        return r
    if any(isinstance(e, str) for e in a._flat()):
        raise Unsupported('astype of strings')
    w = width(t)
    if w is not None and w[1] == 'f':
        k = 'f'
    f = {'i': lambda v: (lift(v).trunc() if w is None else narrow_el(lift(v).trunc(), w)) if lift(v).sp is None else _bad(v),
         'f': lambda v: narrow_el(v, w) if w is not None else (lambda n: n if isinstance(n, fp.FPNum) else Num(n.c, n.f, 'f', n.sp))(lift(v)), 'b': tb}[k]
    r = ewise(f, a)
    if not isinstance(r, SArray):
        r = asarr(r)
    r._k = k
    r._w = w
    return r


def _bad(v):
    raise Unsupported('int of inf/nan')


def np_dot(a, b):
    if isinstance(a, SMasked):
        a = a.concrete()
    if isinstance(b, SMasked):
        b = b.concrete()
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return scalar(a) * scalar(b)
    A, B = a.base_(), b.base_()
    if A.shape[-1] != (B.shape[0] if B.ndim == 1 else B.shape[-2]):
        raise ValueError(f'shapes {A.shape} and {B.shape} not aligned')
    k = 'f' if 'f' in (a.kind, b.kind) else 'i'

    def vec(x, y):
        s = sum_els([_mul(p, q) for p, q in zip(x, y)])
        if k == 'f' and not s.sp and not isinstance(s, fp.FPNum):
            s = Num(s.c, s.f, 'f', s.sp)
        return s
    if A.ndim == 1 and B.ndim == 1:
        return vec(A, B)
    if A.ndim == 1:
        cols = rnp.moveaxis(B, -2, -1)
        return mk([vec(A, cols[ix]) for ix in rnp.ndindex(*cols.shape[:-1])], cols.shape[:-1], k)
    if B.ndim == 1:
        return mk([vec(A[ix], B) for ix in rnp.ndindex(*A.shape[:-1])], A.shape[:-1], k)
    cols = rnp.moveaxis(B, -2, -1)
    shp = A.shape[:-1] + cols.shape[:-1]
    els = []
    for ia in rnp.ndindex(*A.shape[:-1]):
        for ib in rnp.ndindex(*cols.shape[:-1]):
            els.append(vec(A[ia], cols[ib]))
    return mk(els, shp, k)


def _mul(p, q):
    # 0*inf must stay nan: only short cut for finite
    p, q = lift(p), lift(q)
    return p * q


def det(M):
    """determinant by cofactor expansion on a list of lists"""
    n = len(M)
    if n == 0:
        return lift(1)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    # expand along the row/col with most zeros (first row)
    best = max(range(n), key=lambda i: sum(1 for v in M[i] if v.is_zero()))
    tot = lift(0)
    for j in range(n):
        v = M[best][j]
        if v.is_zero():
            continue
        minor = [[M[r][c] for c in range(n) if c != j] for r in range(n) if r != best]
        d = v * det(minor)
        tot = tot + d if (best + j) % 2 == 0 else tot - d
    return tot


def mat(a):
    a = asarr(a)
    M = [[lift(v).red() for v in row] for row in a.base_()]
    for r in M:
        for v in r:
            if v.sp:
                raise Unsupported('linear algebra with inf/nan')
    return M


class LinAlgError(ValueError):
    pass


def la_det(a):
    return norm_el(det(mat(a)))


def _adj(M):
    n = len(M)
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [[M[r][c] for c in range(n) if c != j] for r in range(n) if r != i]
            d = det(minor)
            out[j][i] = d if (i + j) % 2 == 0 else -d
    return out


def la_inv(a):
    a = asarr(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    M = mat(a)
    d = det(M)
    if not bool(d != 0):
        raise LinAlgError('Singular matrix')
    d = d.red()
    A = _adj(M)
    return mk([A[i][j] / d for i in range(len(M)) for j in range(len(M))], a.shape, 'f')


def la_solve(a, b):
    a, b = asarr(a), asarr(b)
    if a.shape[0] == 0:
        return b.copy()
    M = mat(a)
    d = det(M)
    if not bool(d != 0):
        raise LinAlgError('Singular matrix')
    d = d.red()
    M = mat(a)
    A = mk([v for r in _adj(M) for v in r], a.shape, 'f')
    r = np_dot(A, b)
    return ewise(lambda v: lift(v) / d, r)


def la_matrix_power(a, n):
    r = NP.eye(a.shape[0])
    for _ in range(int(n)):
        r = np_dot(r, a)
    return r


def la_eig(a):
    return STUB['eig'](a)


# ---- creation
def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    if isinstance(s, SArray):
        return tuple(int(x) for x in s._flat())
    return (int(s),)


def full(shape, v, dtype=None, **kw):
    k = kchar(dtype)
    shape = _shape(shape)
    if isinstance(v, (SArray, list, tuple)):
        r = full(shape, 0, dtype or _DtypeShim(asarr(v).kind))
        r[...] = v
        return r
    v = norm_el(v)
    if k is None:
        k = kind_of([v])
    o = rnp.empty(shape, dtype=object)
    r = o.view(SArray)
    r._k = k
    r._w = width(dtype)
    o[...] = conv_in(r, v) if not isinstance(v, (list,)) else v
    return r


def zeros(shape, dtype=float, order='C', **kw):
    return full(shape, False if kchar(dtype) == 'b' else 0, dtype or float)


def ones(shape, dtype=float, order='C', **kw):
    return full(shape, 1, dtype or float)


def _like(a, v, dtype, shape=None):
    a = asarr(a)
    k = kchar(dtype) or a.kind
    return full(a.shape if shape is None else shape, v, _DtypeShim(k, width(dtype) if dtype is not None else a._w))


def zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    return _like(a, 0, dtype, shape)


def ones_like(a, dtype=None, order='K', subok=True, shape=None):
    return _like(a, 1, dtype, shape)


def full_like(a, v, dtype=None, **kw):
    return _like(a, v, dtype)


def eye(n, m=None, k=0, dtype=float, **kw):
    n = int(n)
    m = n if m is None else int(m)
    r = zeros((n, m), dtype)
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = 1
    return r


def array(o, dtype=None, copy=True, ndmin=0, **kw):
    k = kchar(dtype)
    if k == 'O' and not isinstance(o, (SArray, rnp.ndarray, SMasked)):
        # ragged allowed
        try:
            r = asarr(o).copy()
        except ValueError:
            e = rnp.empty(len(o), dtype=object)
            for i, v in enumerate(o):
                e[i] = v
            r = e.view(SArray)
        r._k = 'O'
        return r
    r = asarr(o, k)
    if copy and (r is o):
        r = r.copy()
    if k:
        r._k = k
    if width(dtype):
        r = np_astype(r, dtype)
    elif isinstance(o, SArray) and dtype is None:
        r._w = o._w
    elif dtype is not None and r._w:
        r = r.copy()
        r._w = None
    while r.ndim < ndmin:
        r = r[rnp.newaxis]
    return r


def asarray(o, dtype=None, **kw):
    if isinstance(o, SArray) and dtype is None:
        return o
    return array(o, dtype, copy=False)


def np_diag(a, k=0):
    a = asarr(a)
    if a.ndim == 1:
        n = len(a) + abs(k)
        r = zeros((n, n), _DtypeShim(a.kind) if a.kind in 'if' else float)
        for i in range(len(a)):
            r[i + max(0, -k), i + max(0, k)] = a[i]
        return r
    return wrap(rnp.diagonal(a.base_(), k).copy(), a.kind)


def _const_int(v):
    return isinstance(v, (int, rnp.integer)) or (isinstance(v, Num) and v.is_const() and v.c.denominator == 1)


def arange(start, stop=None, step=None, dtype=None):
    if stop is None:
        start, stop = 0, start
    if step is None:
        step = 1
    s, e, st = lift(start), lift(stop), lift(step)
    kind = 'i' if s.kind == e.kind == st.kind == 'i' else 'f'
    if s.kind == 'i' and e.kind == 'i' and st.kind == 'i':
        els = list(range(s.__index__(), e.__index__(), st.__index__()))
    else:
        # numpy documents that for non-integer steps the length is subject to rounding
        n = ((e - s) / st)
        n = n.red()
        if not n.is_const():
            raise Unsupported('arange with symbolic length')
        import math
        ln = math.ceil(n.c)
        exact = n.c.denominator == 1
        if exact and not (s.is_const() and e.is_const() and st.is_const() and _dyadic(s.c) and _dyadic(e.c) and _dyadic(st.c)):
            # exact ratio in real arithmetic: the rounded ratio may exceed the integer
            if STUB['nondet'](f'arange_extra'):
                ln += 1
        els = [s + i * st for i in range(max(0, ln))]
    r = mk(els, (len(els),), kind)
    if dtype is not None:
        r = np_astype(r, dtype)
    return r


def _dyadic(c):
    d = c.denominator
    return d & (d - 1) == 0


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, **kw):
    s, e = lift(start), lift(stop)
    num = int(num)
    div = num - 1 if endpoint else num
    els = [s + (e - s) * Fraction(i, div) if div else s for i in range(num)]
    r = mk([Num(v.c, v.f, 'f', v.sp) for v in els], (num,), 'f')
    return (r, (e - s) / div) if retstep else r


def where(c, a=None, b=None):
    if a is None:
        return np_nonzero(c)
    return ewise(lambda g, x, y: ite(tb(g), x, y), c, a, b)


def _present(els, v):
    return b_any([eq_(e, v) for e in els])


def domain(e):
    """small finite set of possible values of an integer element, or None"""
    e = e.red() if isinstance(e, Num) else e
    if isb(e):
        return [False, True] if isinstance(e, SymB) else [e]
    if isinstance(e, Num):
        if e.is_const():
            return [e]
        if e.sp:
            return None
        p = e.poly()
        b = p.bounds() if p is not None else None
        if b is None or not p.isint() or b[1] - b[0] > 40:
            return None
        return [Num(Fraction(v), (), e.kind) for v in range(int(b[0]), int(b[1]) + 1)]
    return [e]


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    guards = None
    if isinstance(a, SMasked) and a.v.ndim == 1 and a._c is None:
        guards, arr = a.g, a.v
    else:
        if isinstance(a, SMasked):
            a = a.concrete()
        arr = asarr(a)
    if axis is not None and arr.ndim > 1:
        raise Unsupported('unique axis')
    els = arr._flat()
    wts = None
    if any(isinstance(e, fp.WL) for e in els):
        wts = [e.w if isinstance(e, fp.WL) else 1 for e in els]
        els = [fp.strip(e) for e in els]
    g = guards or [True] * len(els)
    if return_index or return_inverse or return_counts:
        if guards:
            els = SMasked(guards, arr, None).concrete()._flat()
        for e in els:
            if isinstance(e, Num) and not e.is_const() and domain(e) is not None:
                e.concretize()
        els = [e.red() if isinstance(e, Num) else (bool(e) if isinstance(e, SymB) else e) for e in els]
        order = _merge_sorted(els, _lt)
        vals, idx, cnt = [], [], []
        inv = [None] * len(els)
        for i in order:
            if vals and bool(eq_(vals[-1], els[i])):
                cnt[-1] = cnt[-1] + (wts[i] if wts else 1)
            else:
                vals.append(els[i])
                idx.append(i)
                cnt.append(wts[i] if wts else 1)
            inv[i] = len(vals) - 1
        out = [mk(vals, (len(vals),), arr.kind)]
        if return_index:
            out.append(mk(idx, (len(idx),), 'i'))
        if return_inverse:
            out.append(mk(inv, arr.shape, 'i'))
        if return_counts:
            out.append(mk(cnt, (len(cnt),), 'i'))
        return tuple(out)
    doms = [domain(e) for e in els]
    if all(d is not None for d in doms):
        allv = []
        for d in doms:
            for v in d:
                if not any(v is w or (type(v) is type(w) and (v.c == w.c if isinstance(v, Num) else v == w)) for w in allv):
                    allv.append(v)
        allv.sort(key=lambda v: v.c if isinstance(v, Num) else v)
        out = []
        for v in allv:
            if bool(b_any([b_and(gi, eq_(e, v)) for gi, e in zip(g, els)])):
                out.append(v)
        return mk(out, (len(out),), arr.kind)
    if guards:
        els = SMasked(guards, arr, None).concrete()._flat()
    order = _merge_sorted(els, _lt)
    out = []
    for i in order:
        if not out or not bool(eq_(out[-1], els[i])):
            out.append(els[i])
    return mk(out, (len(out),), arr.kind)


def np_delete(a, obj, axis=None):
    a = asarr(a)
    obj = _clean_ix(obj) if not isinstance(obj, (int,)) else obj
    if isinstance(obj, Num):
        obj = obj.__index__()
    if isinstance(obj, SArray):
        obj = rnp.array([e.__index__() for e in obj._flat()], dtype=int)
    return wrap(rnp.delete(a.base_(), obj, axis), a.kind)


def np_insert(a, obj, v, axis=None):
    a = asarr(a)
    obj = obj.__index__() if isinstance(obj, Num) else obj
    if isinstance(v, (SArray, list, tuple)):
        vv = rnp.array([conv_in(a, e) for e in asarr(v)._flat()], dtype=object).reshape(asarr(v).shape)
    else:
        vv = rnp.empty((), dtype=object)
        vv[()] = conv_in(a, v)
    return wrap(rnp.insert(a.base_(), obj, vv, axis), a.kind)


def _cat(fn):
    def f(arrs, *args, **kw):
        xs = [asarr(x) for x in arrs]
        ks = [x.kind for x in xs]
        k = 'O' if 'O' in ks else 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'
        xs = [x if x.kind == k or k == 'O' else np_astype(x, _DtypeShim(k)) for x in xs]
        return wrap(fn([x.base_() for x in xs], *args, **kw), k)
    return f


def np_append(a, v, axis=None):
    a = asarr(a)
    v = asarr(v)
    if axis is None:
        a, v = a.flatten(), v.flatten()
        axis = 0
    return NP.concatenate([a, v], axis=axis)


def np_kron(a, b):
    a, b = asarr(a), asarr(b)
    (n, m), (p, q) = a.shape, b.shape
    r = rnp.empty((n * p, m * q), dtype=object)
    for i in range(n):
        for j in range(m):
            for k in range(p):
                for l in range(q):
                    r[i * p + k, j * q + l] = lift(a.base_()[i, j]) * b.base_()[k, l]
    return wrap(r)


def struct(name):
    """structural numpy function (moves elements only)"""
    fn = getattr(rnp, name)

    def f(a, *args, **kw):
        a = asarr(a)
        args = [int(x) if isinstance(x, Num) else tuple(int(y) if isinstance(y, Num) else y for y in x) if isinstance(x, tuple) else x for x in args]
        r = fn(a.base_(), *args, **kw)
        if isinstance(r, list):
            return [wrap(x, a.kind) for x in r]
        return wrap(r, a.kind)
    return f


def indices(name):
    """index generating functions with concrete integer arguments"""
    fn = getattr(rnp, name)

    def f(*args, **kw):
        args = [int(x) if isinstance(x, Num) else x for x in args]
        return wrap(fn(*args, **kw))
    return f


def tri_mask(name):
    fn = getattr(rnp, name)

    def f(a, k=0):
        a = asarr(a)
        m = fn(rnp.ones(a.shape, dtype=int), k)
        return wrap(rnp.where(m != 0, a.base_(), Num(F0, (), a.kind if a.kind in 'if' else 'i')).astype(object), a.kind)
    return f


def fill_diagonal(a, v, wrap=False):
    vs = asarr(v)._flat()
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = vs[i % len(vs)]


_range = range


def np_histogram(x, bins=10, range=None, **kw):
    if not isinstance(bins, (SArray, list)):
        raise Unsupported('histogram with a number of bins')
    e = asarr(bins)
    x = asarr(x).flatten()
    ed = e._flat()
    counts = []
    n = len(ed) - 1
    for i in _range(n):
        tot = []
        for v in x._flat():
            hi = (v <= ed[i + 1]) if i == n - 1 else (v < ed[i + 1])
            tot.append(b_and(v >= ed[i], hi))
        counts.append(sum_els([lift(t) for t in tot]))
    return mk(counts, (n,), 'i'), e


def np_searchsorted(a, v, side='left', **kw):
    a = asarr(a)
    f = (lambda x, y: x < y) if side == 'left' else (lambda x, y: x <= y)

    def one(val):
        return sum_els([lift(f(e, val)) for e in a._flat()])
    return umap(one, v) if isinstance(v, (SArray, list)) else one(norm_el(v))


def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side='left' if right else 'right')


def np_bincount(x, weights=None, minlength=0):
    x = asarr(x)
    els = x._flat()
    hi = -1
    n = minlength
    for e in els:
        d = domain(e)
        if d is None:
            hi = None
            break
        hi = max(hi, int(d[-1].c if isinstance(d[-1], Num) else d[-1]))
    if hi is None:
        # no finite list of values: ask the path for the length
        if bool(b_any([lift(e) < 0 for e in els])):
            raise ValueError("'list' argument must have no negative elements")
        n = int(minlength)
        while bool(b_any([lift(e) >= n for e in els])):
            n += 1
            if n > minlength + 64:
                raise Unsupported('bincount')
    else:
        # length is max(x)+1
        for v in range(hi, -1, -1):
            if v + 1 <= minlength:
                break
            if bool(_present(els, v)):
                n = v + 1
                break
    w = asarr(weights)._flat() if weights is not None else None
    out = []
    for v in range(int(n)):
        out.append(sum_els([ite(eq_(e, v), w[i] if w else 1, 0) for i, e in enumerate(els)]))
    return mk(out, (len(out),), 'f' if weights is not None else 'i')


def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    big = Num(Fraction(10) ** 300)

    def f(v):
        v = lift(v)
        if v.sp == 'nan':
            return lift(nan)
        if v.sp == 'inf':
            return big if posinf is None else lift(posinf)
        if v.sp == '-inf':
            return -big if neginf is None else lift(neginf)
        return v
    return umap(f, a) if isinstance(a, (SArray, list, rnp.ndarray)) else f(a)


def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    """real arithmetic: closeness is equality up to the documented tolerance"""
    def f(x, y):
        x, y = lift(x), lift(y)
        if x.sp or y.sp:
            return x.sp == y.sp and x.sp != 'nan'
        d = abs(x - y)
        return d <= lift(Fraction(str(float(atol)))) + lift(Fraction(str(float(rtol)))) * abs(y)
    return ewise(f, a, b)


def allclose(a, b, *r, **kw):
    x = isclose(a, b, *r, **kw)
    return x.all() if isinstance(x, SArray) else x


def array_equal(a, b, **kw):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return (a == b).all() if a.ndim else eq_(scalar(a), scalar(b))


def np_isin(a, b, invert=False, **kw):
    bs = asarr(list(b) if isinstance(b, (set,)) else b)._flat()
    r = umap(lambda v: _present(bs, v), a)
    return ~r if invert else r


def np_count_nonzero(a, axis=None, **kw):
    return np_sum(tobool(asarr(a)), axis)


def np_cov(*a, **k):
    raise Unsupported('cov')


def np_setop(name):
    def f(a, b, **kw):
        def conc(x):
            return rnp.array([e.__index__() for e in asarr(x)._flat()], dtype=int)
        return wrap(getattr(rnp, name)(conc(a), conc(b), **kw))
    return f


def np_einsum(spec, *ops, **kw):
    spec = spec.replace(' ', '')
    ins, out = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    if out is None:
        from collections import Counter
        c = Counter(''.join(ins))
        out = ''.join(sorted(k for k, v in c.items() if v == 1))
    ops = [asarr(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for ch, d in zip(s, o.shape):
            dims[ch] = d
    summed = [c for c in dims if c not in out]
    res = []
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, oi))
        terms = []
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = lift(1)
            for s, o in zip(ins, ops):
                t = t * o.base_()[tuple(env[c] for c in s)]
            terms.append(t)
        res.append(sum_els(terms))
    if not out:
        return res[0]
    return mk(res, tuple(dims[c] for c in out))


def np_diff(a, n=1, axis=-1):
    a = asarr(a)
    for _ in range(n):
        b = rnp.moveaxis(a.base_(), axis, 0)
        r = ewise(lambda x, y: lift(x) - y, wrap(b[1:].copy()), wrap(b[:-1].copy()))
        a = wrap(rnp.moveaxis(r.base_(), 0, axis).copy())
    return a


class Facade(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in _UF:
            real = getattr(rnp, n)

            def f(*a, **kw):
                return array_ufunc(real, '__call__', a, kw)
            f.__name__ = n
            f.reduce = lambda a, axis=0, **k: array_ufunc(real, 'reduce', (a,), dict(axis=axis, **k))
            f.outer = lambda a, b: array_ufunc(real, 'outer', (a, b), {})
            f.at = lambda a, i, v=None: array_ufunc(real, 'at', (a, i, v) if v is not None else (a, i), {})
            f.accumulate = lambda a, axis=0: array_ufunc(real, 'accumulate', (a,), dict(axis=axis))
            setattr(self, n, f)
            return f
        v = getattr(rnp, n)
        if callable(v) and not isinstance(v, type):
            def g(*a, **kw):
                raise Unsupported(f'numpy.{n}')
            g.__name__ = n
            return g
        return v


NP = Facade('numpy')
NP.__path__ = []


def _setup():
    d = dict(
        zeros=zeros, ones=ones, full=full, empty=zeros, eye=eye, identity=lambda n, dtype=float: eye(n, dtype=dtype),
        zeros_like=zeros_like, ones_like=ones_like, full_like=full_like, empty_like=zeros_like, array=array,
        asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, copy=lambda a, **k: asarr(a).copy(),
        diag=np_diag, diagonal=lambda a, *r, **k: asarr(a).diagonal(*r, **k), trace=lambda a, **k: np_sum(asarr(a).diagonal()),
        arange=arange, linspace=linspace, where=where, nonzero=np_nonzero,
        argwhere=lambda a: wrap(rnp.argwhere(rnp.array([bool(tb(e)) for e in asarr(a)._flat()], dtype=bool).reshape(asarr(a).shape))),
        flatnonzero=lambda a: np_nonzero(asarr(a).flatten())[0], unique=np_unique, delete=np_delete, insert=np_insert,
        append=np_append, concatenate=_cat(rnp.concatenate), vstack=_cat(rnp.vstack), hstack=_cat(rnp.hstack),
        stack=_cat(rnp.stack), column_stack=_cat(rnp.column_stack), dstack=_cat(rnp.dstack), kron=np_kron,
        sum=np_sum, nansum=np_sum, mean=np_mean, std=np_std, var=np_var, cumsum=np_cumsum, average=lambda a, axis=None, weights=None: np_mean(a, axis) if weights is None else np_sum(asarr(a) * weights, axis) / np_sum(weights),
        prod=lambda a, axis=None, **k: reduce_(asarr(a), operator.mul, axis, lift(1)),
        dot=np_dot, matmul=np_dot, inner=lambda a, b: np_dot(a, asarr(b).T if asarr(b).ndim > 1 else b), vdot=np_dot,
        outer=lambda a, b: ewise(lambda x, y: lift(x) * y, asarr(a).reshape(-1, 1), asarr(b).reshape(1, -1)),
        einsum=np_einsum, sort=np_sort, argsort=np_argsort,
        min=lambda a, axis=None, **k: asarr(a).min(axis), max=lambda a, axis=None, **k: asarr(a).max(axis),
        amin=lambda a, axis=None, **k: asarr(a).min(axis), amax=lambda a, axis=None, **k: asarr(a).max(axis),
        argmin=lambda a, axis=None: asarr(a).argmin(axis), argmax=lambda a, axis=None: asarr(a).argmax(axis),
        any=lambda a, axis=None, **k: (a.any(axis) if isinstance(a, SMasked) else asarr(a).any(axis)),
        all=lambda a, axis=None, **k: (a.all(axis) if isinstance(a, SMasked) else asarr(a).all(axis)),
        count_nonzero=np_count_nonzero, histogram=np_histogram, searchsorted=np_searchsorted, digitize=np_digitize,
        bincount=np_bincount, nan_to_num=nan_to_num, isclose=isclose, allclose=allclose, array_equal=array_equal,
        isin=np_isin, in1d=np_isin, fill_diagonal=fill_diagonal, diff=np_diff, clip=lambda a, lo, hi, **k: asarr(a).clip(lo, hi),
        round=lambda a, *r, **k: asarr(a).round(*r), around=lambda a, *r, **k: asarr(a).round(*r),
        shape=lambda a: asarr(a).shape, ndim=lambda a: asarr(a).ndim, size=lambda a: asarr(a).size,
        isscalar=lambda v: isinstance(v, (int, float, Num, str)), tril=tri_mask('tril'), triu=tri_mask('triu'),
        setdiff1d=np_setop('setdiff1d'), union1d=np_setop('union1d'), intersect1d=np_setop('intersect1d'),
        atleast_1d=lambda a: asarr(a) if asarr(a).ndim else asarr(a).reshape(1),
        atleast_2d=lambda a: asarr(a) if asarr(a).ndim > 1 else asarr(a).reshape(1, -1),
        ix_=lambda *a: tuple(wrap(x) for x in rnp.ix_(*[_ixarr(v) for v in a])),
        meshgrid=lambda *a, **k: [wrap(x) for x in rnp.meshgrid(*[asarr(v).base_() for v in a], **k)],
        apply_along_axis=lambda f, axis, a, *r, **k: _along(f, axis, a, *r, **k),
        vectorize=lambda f, **k: (lambda *a: ewise(f, *a)),
        take=lambda a, ix, axis=None, **k: asarr(a).flatten()[ix] if axis is None else _take(a, ix, axis),
        inf=INF, nan=NAN, newaxis=None, e=Num(Fraction('2.718281828459045')),
        seterr=lambda **k: {}, set_printoptions=lambda **k: None, errstate=_Null, printoptions=_Null,
        ndarray=SArray, float64=float, int64=int, bool_=bool, intp=int, **_NARROWS,
        iscomplexobj=lambda a: any(hasattr(v, 'mod') for v in asarr(a)._flat()), real=lambda a: asarr(a).real if isinstance(a, (SArray, list, tuple)) else a.real, imag=lambda a: asarr(a).imag if isinstance(a, (SArray, list, tuple)) else a.imag,
        cov=np_cov,
        iterable=lambda o: hasattr(o, '__iter__'),
        ndenumerate=lambda a: ((ix, asarr(a).base_()[ix]) for ix in rnp.ndindex(*asarr(a).shape)),
        ndindex=rnp.ndindex, may_share_memory=lambda a, b: False, floor_divide=_UF['floor_divide'], mod=_UF['remainder'],
        broadcast_to=lambda a, shape: wrap(rnp.broadcast_to(asarr(a).base_(), shape).copy(), asarr(a).kind),
        logical_and=lambda a, b, **k: ewise(lambda x, y: b_and(tb(x), tb(y)), a, b),
        abs=_UF['absolute'],
    )
    for n in ('transpose', 'reshape', 'ravel', 'squeeze', 'expand_dims', 'tile', 'repeat', 'flip', 'fliplr', 'flipud',
              'roll', 'moveaxis', 'swapaxes', 'split', 'array_split', 'rot90', 'resize'):
        d[n] = struct(n)
    for n in ('tril_indices', 'triu_indices', 'diag_indices', 'indices', 'tri'):
        d[n] = indices(n)
    for k, v in d.items():
        setattr(NP, k, v)
    la = types.ModuleType('numpy.linalg')
    la.det, la.inv, la.solve, la.eig, la.LinAlgError, la.matrix_power = la_det, la_inv, la_solve, la_eig, LinAlgError, la_matrix_power
    la.eigvals = lambda a: la_eig(a)[0]
    la.pinv = la_inv
    la.norm = lambda a, **k: num_sqrt(np_sum(asarr(a) * asarr(a)))
    NP.linalg = la
    NP.pi = PI()


def _ixarr(v):
    return rnp.array([x.__index__() for x in asarr(v)._flat()], dtype=int)


def _take(a, ix, axis):
    a = asarr(a)
    ix = _clean_ix(asarr(ix))
    if isinstance(ix, SArray):
        ix = rnp.array([x.__index__() for x in ix._flat()], dtype=int)
    return wrap(rnp.take(a.base_(), ix, axis), a.kind)


def _along(f, axis, a, *r, **k):
    a = asarr(a)
    mv = rnp.moveaxis(a.base_(), axis, -1)
    outs = []
    for ix in rnp.ndindex(*mv.shape[:-1]):
        v = mv[ix].copy().view(SArray)
        v._k = a.kind
        outs.append(f(v, *r, **k))
    o = asarr(outs)
    o = o.reshape(mv.shape[:-1] + o.shape[1:])
    if o.ndim == a.ndim:
        return wrap(rnp.moveaxis(o.base_(), -1, axis).copy(), o.kind)
    return o


class _Null:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# attribute 'dtype' for code under test: the loader rewrites  x.dtype  to  __sx_dtype__(x)
def dtype_of(x):
    if isinstance(x, SArray):
        return get_dtype(x)
    if isinstance(x, SMasked):
        return get_dtype(x.v)
    return x.dtype


_setup()
