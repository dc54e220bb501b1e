"""Stand-ins for the libraries giddy calls.

Deterministic library functions are given their documented meaning exactly (ranks, quantiles, spatial lags, strongly
connected components, stationary distributions); random draws, permutation p-values and drawing back ends are
nondeterministic, constrained by their documented contract only.
"""
import itertools, types, warnings as _warnings
from fractions import Fraction
import numpy as rnp
from . import core, arr, more, fakes, fp
from .core import (Num, SymB, lift, ite, b_and, b_or, b_not, b_any, b_all, Unsupported, num_sqrt, num_log, uf, NAN, F0, F1)
from .arr import NP, SArray, asarr, mk, umap, ewise, sum_els, np_sum


def ctx():
    return core.CUR.ctx


# ------------------------------------------------------------------ random numbers
class RandomState:
    """global numpy random state: an opaque token; draws are chosen by the harness"""
    pass


class _Rng(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def g(*a, **k):
            raise Unsupported(f'numpy.random.{n}')
        return g


def _draw(n):
    c = ctx()
    c.rng = ('drawn', c.rng, 'perm')
    return c.draw_perm(n)


def rng_permutation(x):
    if isinstance(x, (int, Num)):
        n = int(x)
        return mk([Num(Fraction(i), (), 'i') for i in _draw(n)], (n,), 'i')
    a = asarr(x)
    p = _draw(len(a))
    return a[rnp.array(p, dtype=int)].copy()


def rng_shuffle(x):
    n = len(x)
    p = _draw(n)
    if isinstance(x, SArray):
        b = x.base_()
        b[...] = b[rnp.array(p, dtype=int)].copy()
    else:
        x[:] = [x[i] for i in p]


def rng_choice(a, size=None, replace=True, p=None):
    if size is not None:
        if replace is False or (isinstance(replace, bool) and not replace):
            n = int(a) if isinstance(a, (int, Num)) else len(a)
            if int(size) == n:
                return rng_permutation(a)
        raise Unsupported('random.choice with size')
    els = list(range(int(a))) if isinstance(a, (int, Num)) else asarr(a)._flat()
    c = ctx()
    c.rng = ('drawn', c.rng, 'choice')
    i = c.choose('rchoice', len(els))
    return els[i] if not isinstance(els[i], int) else Num(Fraction(els[i]), (), 'i')


class _Generator:
    permutation = staticmethod(rng_permutation)
    shuffle = staticmethod(rng_shuffle)
    choice = staticmethod(rng_choice)

    def permuted(self, x, axis=None, out=None):
        return rng_permutation(x)


def _get_state(*a, **k):
    return ('token', ctx().rng)


def _set_state(s):
    if not (isinstance(s, tuple) and s and s[0] == 'token'):
        raise ValueError('state')
    ctx().rng = s[1]


def _seed(s=None):
    ctx().rng = ('seed', repr(s))


rng = _Rng('numpy.random')
rng.permutation, rng.shuffle, rng.choice = rng_permutation, rng_shuffle, rng_choice
rng.seed, rng.get_state, rng.set_state = _seed, _get_state, _set_state
rng.default_rng = lambda *a, **k: _Generator()
rng.RandomState = lambda *a, **k: _Generator()
rng.Generator = _Generator
NP.random = rng


# ------------------------------------------------------------------ special functions
def f_erfc(x):
    def one(v):
        v = lift(v)
        if v.sp:
            return {'inf': lift(0.0), '-inf': lift(2.0), 'nan': NAN}[v.sp]
        v = v.red()
        if v.is_zero():
            return Num(F1)
        return uf('ERFC', v, lo=0, hi=2)
    return umap(one, x) if isinstance(x, SArray) else one(x)


def f_erf(x):
    return 1 - f_erfc(x)


def chi2cdf(x, dof):
    def one(v, d):
        v, d = lift(v), lift(d)
        if v.sp == 'nan' or d.sp == 'nan':
            return NAN
        if d.sp:
            raise Unsupported('chi2 dof')
        if bool(d <= 0):
            return NAN
        if v.sp:
            return lift(1.0) if v.sp == 'inf' else lift(0.0)
        v = v.red()
        if v.is_zero():
            return Num(F0)
        return uf('CHI2CDF', v, d, lo=0, hi=1)
    if isinstance(x, SArray) or isinstance(dof, SArray):
        return ewise(one, x, dof)
    return one(x, dof)


class _Chi2:
    cdf = staticmethod(lambda x, df, **k: chi2cdf(x, df))
    sf = staticmethod(lambda x, df, **k: 1 - chi2cdf(x, df))


SQRT2 = None


class _Norm:
    @staticmethod
    def sf(z):
        return f_erfc(z / num_sqrt(lift(2))) / 2

    @staticmethod
    def cdf(z):
        return 1 - _Norm.sf(z)


def settled(b):
    """the truth value when this path already implies it"""
    if not isinstance(b, SymB):
        return b
    p = ctx().path
    v = p.known(b)
    if v is None:
        p._defs_for(b.z)
        m = p.get_model().eval(b.z, model_completion=True)
        if core.z3.is_true(m) and p.check(core.z3.Not(b.z)) == core.z3.unsat:
            return True
        if core.z3.is_false(m) and p.check(b.z) == core.z3.unsat:
            return False
    return b if v is None else v


def rankdata(a, method='average', axis=None, **kw):
    a = asarr(a)
    if axis is not None and a.ndim > 1:
        b = rnp.moveaxis(a.base_(), int(axis), 0)
        out = rnp.empty(b.shape, dtype=object)
        for ix in rnp.ndindex(*b.shape[1:]):
            col = b[(slice(None),) + ix].copy().view(SArray)
            col._k = a.kind
            out[(slice(None),) + ix] = rankdata(col, method).base_()
        r = rnp.moveaxis(out, 0, int(axis)).copy().view(SArray)
        r._k = 'f' if method == 'average' else 'i'
        return r
    els = a._flat()
    n = len(els)
    out = []
    lt = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            l = settled(lift(els[i]) < els[j])
            g = settled(lift(els[j]) < els[i]) if l is not True else False
            lt[i][j], lt[j][i] = l, g
    for i in range(n):
        t = [Num(F1, (), 'i')]
        for j in range(n):
            if j == i:
                continue
            less = lt[j][i]
            if method == 'ordinal':
                # stable: earlier elements with an equal value rank first
                t.append(lift(less if j > i else b_not(lt[i][j])))
            elif method in ('average', 'min', 'max', 'dense'):
                if method == 'dense':
                    raise Unsupported('dense ranks')
                t.append(lift(less))
                eq = b_and(b_not(lt[i][j]), b_not(lt[j][i]))
                if method == 'average':
                    t.append(lift(eq) * Fraction(1, 2))
                elif method == 'max':
                    t.append(lift(eq))
        r = sum_els(t)
        r.kind = 'f' if method == 'average' else 'i'
        out.append(r)
    return mk(out, (n,), 'f' if method == 'average' else 'i')


def ms_rankdata(a, axis=None, use_missing=False):
    return rankdata(a, 'average', axis=axis) if axis is not None else rankdata(a, 'average').reshape(asarr(a).shape)


class M(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        full = self.__name__ + '.' + n

        def g(*a, **k):
            raise Unsupported(full)
        g.__name__ = n
        return g


def module(name, **kw):
    m = M(name)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def pdist(x, metric='euclidean', **kw):
    x = asarr(x)
    n = len(x)
    out = []
    for i in range(n):
        for j in range(i + 1, n):
            a, b = x[i]._flat(), x[j]._flat()
            if metric == 'hamming':
                out.append(sum_els([lift(b_not(arr.eq_(p, q))) for p, q in zip(a, b)]) / len(a))
            elif metric == 'cityblock':
                out.append(sum_els([abs(lift(p) - q) for p, q in zip(a, b)]))
            else:
                raise Unsupported('pdist ' + str(metric))
    return mk(out, (len(out),), 'f')


def squareform(v, **kw):
    v = asarr(v)
    if v.ndim == 2:
        n = len(v)
        return mk([v[i, j] for i in range(n) for j in range(i + 1, n)], (n * (n - 1) // 2,), 'f')
    n = 1
    while n * (n - 1) // 2 < len(v):
        n += 1
    r = arr.zeros((n, n))
    e = iter(v._flat())
    for i in range(n):
        for j in range(i + 1, n):
            x = next(e)
            r[i, j] = x
            r[j, i] = x
    return r


# ------------------------------------------------------------------ quantecon
class MarkovChain:
    def __init__(self, P, state_values=None):
        P = asarr(P)
        if P.ndim != 2 or P.shape[0] != P.shape[1]:
            raise ValueError('P must be a square matrix')
        self.P = P
        self.n = n = P.shape[0]
        # documented argument checks
        for r in range(n):
            row = [lift(v) for v in P[r]._flat()]
            for v in row:
                if v.sp:
                    raise ValueError('P must be nonnegative' if v.sp != 'inf' else 'The rows of P must sum to 1')
                if not bool(v >= 0):
                    raise ValueError('P must be nonnegative')
            d = sum_els(row) - 1
            if isinstance(d, fp.FPNum):
                continue                # within the documented tolerance
            if d.red().is_zero():
                continue
            if not bool(d == 0):
                tol = Fraction(1, 100000)
                if bool(b_or(d > tol, d < -tol)):
                    raise ValueError('The rows of P must sum to 1')
                raise Unsupported('rows that sum to nearly one')
        self._an = None

    def _analyse(self):
        if self._an is None:
            n = self.n
            adj = [[bool(lift(self.P[i, j]) != 0) for j in range(n)] for i in range(n)]
            reach = [[i == j or adj[i][j] for j in range(n)] for i in range(n)]
            for m in range(n):
                for i in range(n):
                    for j in range(n):
                        if reach[i][m] and reach[m][j]:
                            reach[i][j] = True
            seen = set()
            cls = []
            for i in range(n):
                if i not in seen:
                    c = [j for j in range(n) if reach[i][j] and reach[j][i]]
                    seen.update(c)
                    cls.append(c)
            rec = [c for c in cls if all(j in c for j in range(n) if reach[c[0]][j])]
            self._an = cls, rec
        return self._an

    @staticmethod
    def _ix(c):
        return mk([Num(Fraction(v), (), 'i') for v in c], (len(c),), 'i')

    @property
    def is_irreducible(self):
        return len(self._analyse()[0]) == 1

    @property
    def num_communication_classes(self):
        return len(self._analyse()[0])

    @property
    def communication_classes_indices(self):
        return [self._ix(c) for c in self._analyse()[0]]

    communication_classes = communication_classes_indices

    @property
    def num_recurrent_classes(self):
        return len(self._analyse()[1])

    @property
    def recurrent_classes_indices(self):
        return [self._ix(c) for c in self._analyse()[1]]

    recurrent_classes = recurrent_classes_indices

    @property
    def stationary_distributions(self):
        rec = self._analyse()[1]
        out = arr.zeros((len(rec), self.n))
        for q, c in enumerate(rec):
            pi = stationary([[lift(self.P[i, j]).red() for j in c] for i in c])
            for i, v in zip(c, pi):
                out[q, i] = v
        return out


def stationary(P):
    """stationary distribution of an irreducible stochastic matrix: principal minors of I - P"""
    r = len(P)
    if r == 1:
        return [Num(F1)]
    A = [[(Num(F1) if i == j else Num(F0)) - P[i][j] for j in range(r)] for i in range(r)]
    # diagonal as minus the off-diagonal row sum keeps the minors free of cancellation
    for i in range(r):
        A[i][i] = sum_els([P[i][j] for j in range(r) if j != i])
    mins = []
    for m in range(r):
        B = [[A[i][j] for j in range(r) if j != m] for i in range(r) if i != m]
        mins.append(arr.det(B))
    tot = sum_els(mins)
    return [v / tot for v in mins]


# ------------------------------------------------------------------ eigenvalues
class CNum:
    """complex value with known modulus"""

    def __init__(self, re, im, mod):
        self.re, self.im, self.mod = re, im, mod

    def __abs__(self):
        return self.mod

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def conjugate(self):
        return CNum(self.re, -self.im, self.mod)

    conj = conjugate

    def __neg__(self):
        return CNum(-self.re, -self.im, self.mod)

    def __pos__(self):
        return self

    def _parts(self, o):
        return (o.re, o.im, o.mod) if isinstance(o, CNum) else (lift(o), Num(F0), abs(lift(o)))

    def __mul__(self, o):
        re, im, mod = self._parts(o)
        return CNum(self.re * re - self.im * im, self.re * im + self.im * re, self.mod * mod)

    __rmul__ = __mul__

    def __add__(self, o):
        re, im, _ = self._parts(o)
        re, im = self.re + re, self.im + im
        return CNum(re, im, num_sqrt(re * re + im * im))

    __radd__ = __add__

    def __sub__(self, o):
        re, im, _ = self._parts(o)
        return self + CNum(-re, -im, None)

    def __rsub__(self, o):
        return -self + o

    # numpy orders complex numbers by real part, then imaginary part
    def _lex(self, o, op):
        re, im = (o.re, o.im) if isinstance(o, CNum) else (lift(o), Num(F0))
        a, b = (self.re, self.im), (re, im)
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        last = a[1] < b[1] if op == '<' else a[1] <= b[1]
        return b_or(a[0] < b[0], b_and(a[0] == b[0], last))

    def __lt__(self, o):
        return self._lex(o, '<')

    def __gt__(self, o):
        return self._lex(o, '>')

    def __le__(self, o):
        return self._lex(o, '<=')

    def __ge__(self, o):
        return self._lex(o, '>=')

    def __eq__(self, o):
        re, im = (o.re, o.im) if isinstance(o, CNum) else (lift(o), Num(F0))
        return b_and(self.re == re, self.im == im)

    __hash__ = object.__hash__


def eigenvalues(M):
    """eigenvalues of a small real matrix; a unit eigenvalue is split off for stochastic matrices"""
    n = len(M)
    if n == 1:
        return [M[0][0]]
    stoch = all((sum_els(r) - 1).red().is_zero() for r in M) or \
        all((sum_els([M[i][j] for i in range(n)]) - 1).red().is_zero() for j in range(n))
    tr = sum_els([M[i][i] for i in range(n)])
    d = arr.det(M)
    if n == 2:
        if stoch:
            return [Num(F1), tr - 1]
        return _quad(tr, d)
    if n == 3 and stoch:
        # Perron-Frobenius: no eigenvalue of a stochastic matrix exceeds one in modulus
        return [Num(F1)] + _quad(tr - 1, d, 1)
    raise Unsupported('eigenvalues of this matrix')


def _quad(s, d, bound=None):
    """roots of x^2 - s x + d"""
    disc = (s * s - 4 * d).red()
    if bool(disc >= 0):
        if disc.is_const():
            r = num_sqrt(disc)
            return [(s + r) / 2, (s - r) / 2]
        S, D = s.red().z(), d.red().z()
        memo = ctx().__dict__.setdefault('roots', {})
        hit = memo.get((S.get_id(), D.get_id()))
        if hit is not None:
            return list(hit)
        n = len(core.ATOMS)
        zs = [core.z3.Real(f'root!{n}a'), core.z3.Real(f'root!{n}b')]
        defs = [zs[0] + zs[1] == S, zs[0] * zs[1] == D, zs[0] >= zs[1]] + [z * z - S * z + D == 0 for z in zs]
        if bound:
            defs += [z <= bound for z in zs] + [z >= -bound for z in zs]
        out = []
        for q, z in enumerate(zs):
            at = core.new_atom(('fresh', z.decl().name()), z, 'real', defs=defs)
            if bound:
                at.lo, at.hi = Fraction(-bound), Fraction(bound)
            out.append(Num.of_poly(core.Poly.atom(at)))
        core._keep.extend([S, D])
        memo[S.get_id(), D.get_id()] = list(out)
        return out
    m = num_sqrt(d)
    if bound:
        ctx().assume(m <= bound)
    im = num_sqrt(-disc) / 2
    return [CNum(s / 2, im, m), CNum(s / 2, -im, m)]


def eig(a):
    a = asarr(a)
    M = arr.mat(a)
    n = len(M)
    col = all((sum_els([M[i][j] for i in range(n)]) - 1).red().is_zero() for j in range(n))
    if col:
        # transposed stochastic matrix: Perron vector for eigenvalue one
        P = [[M[j][i] for j in range(n)] for i in range(n)]
        mc = MarkovChain(mk([v for r in P for v in r], (n, n), 'f'))
        if mc.num_recurrent_classes == 1:
            pi = mc.stationary_distributions[0]
            vals = [Num(F1)]
            vec = arr.zeros((n, n))
            # LAPACK's eigenvectors have any sign and length and come in any order
            flip = not getattr(ctx(), 'plain_eig', False) and ctx().choose('eig', 2)
            sgn, pos = (-1, n - 1) if flip else (1, 0)
            vec[:, 0] = pi * (sgn * Num(Fraction(5, 7)))
            rows = all((sum_els(r) - 1).red().is_zero() for r in M)
            rest = eigenvalues(M)[1:] if n == 2 or (n == 3 and rows) else None
            for q in range(1, n):
                if rest is not None:
                    vals.append(rest[q - 1])
                    for i in range(n):
                        vec[i, q] = NAN
                    continue
                z = core.z3.Real(f'eig!{len(core.ATOMS)}')
                at = core.new_atom(('fresh', z.decl().name()), z, 'real', defs=(z < 1, z >= -1))
                vals.append(Num.of_poly(core.Poly.atom(at)))
                for i in range(n):
                    vec[i, q] = NAN
            vals.insert(pos, vals.pop(0))
            vec = vec[:, list(range(1, pos + 1)) + [0] + list(range(pos + 1, n))]
            return mk(vals, (n,), 'O' if any(isinstance(x, CNum) for x in vals) else 'f'), vec
        # several recurrent classes: eigenvectors are not determined, only the values are
    vals = eigenvalues(M)
    v = mk(vals, (n,), 'O' if any(isinstance(x, CNum) for x in vals) else 'f')
    vec = arr.zeros((n, n))
    for i in range(n):
        for j in range(n):
            vec[i, j] = NAN
    return v, vec


def eigvals(a):
    a = asarr(a)
    vals = eigenvalues(arr.mat(a))
    return mk(vals, (len(vals),), 'O' if any(isinstance(x, CNum) for x in vals) else 'f')


arr.STUB['eig'] = eig
arr.NP.linalg.eigvals = eigvals


# ------------------------------------------------------------------ angles
def arctan2(y, x):
    """angle of the vector (x, y): exact on the axes and diagonals, elsewhere any value strictly inside its octant;
    -pi < angle <= pi"""
    y, x = lift(y), lift(x)
    if y.sp or x.sp:
        return NAN
    pi = arr.PI()
    c = ctx()
    zs = [v.red().z() for v in (y, x)]
    core._keep.extend(zs)
    key = ('atan2',) + tuple(z.get_id() for z in zs)
    cache = c.__dict__.setdefault('_atan', {})
    if key in cache:
        return cache[key][0]
    yz = y.red()
    xz = x.red()
    r = uf('ATAN2', yz, xz)
    t = r.z()
    P = pi.z()
    zy, zx = yz.z(), xz.z()
    A, O, I, N = core.z3.And, core.z3.Or, core.z3.Implies, core.z3.Not
    q = core._rv
    h = P / 2
    e = P / 4
    cons = [I(A(zx > 0, zy == 0), t == 0), I(A(zx == 0, zy == 0), t == 0), I(A(zx > 0, zy > 0, zy < zx), A(t > 0, t < e)),
            I(A(zx > 0, zy == zx), t == e), I(A(zx > 0, zy > zx), A(t > e, t < h)), I(A(zx == 0, zy > 0), t == h),
            I(A(zx < 0, zy > -zx), A(t > h, t < h + e)), I(A(zx < 0, zy == -zx), t == h + e),
            I(A(zx < 0, zy > 0, zy < -zx), A(t > h + e, t < P)), I(A(zx < 0, zy == 0), t == P),
            I(A(zx > 0, zy < 0, -zy < zx), A(t < 0, t > -e)), I(A(zx > 0, -zy == zx), t == -e),
            I(A(zx > 0, -zy > zx), A(t < -e, t > -h)), I(A(zx == 0, zy < 0), t == -h),
            I(A(zx < 0, -zy > -zx), A(t < -h, t > -h - e)), I(A(zx < 0, -zy == -zx), t == -h - e),
            I(A(zx < 0, zy < 0, -zy < -zx), A(t < -h - e, t > -P))]
    core.CUR._defs_for(P)
    for k in cons:
        core.CUR.add(k)
    cache[key] = (r, y, x)
    return r


arr.STUB['arctan2'] = arctan2
arr.STUB['nondet'] = lambda name: bool(ctx().choose(name, 2))


# ------------------------------------------------------------------ classifiers
def quantile_bins(y, k):
    els = arr.np_sort(asarr(y).flatten())._flat()
    n = len(els)
    k = int(k)
    q = []
    for j in range(1, k + 1):
        pos = Fraction(j, k) * (n - 1)
        lo = int(pos)
        fr = pos - lo
        v = els[lo] if fr == 0 else lift(els[lo]) + (lift(els[lo + 1]) - els[lo]) * fr
        q.append(Num(v.c, v.f, 'f', v.sp))
    out = []
    for v in q:
        if out and bool(v == out[-1]):
            continue
        out.append(v)
    return mk(out, (len(out),), 'f')


def bin_ids(y, bins):
    """number of cutoffs strictly below each value (values above the last bin are counted 0 by mapclassify)"""
    b = asarr(bins)._flat()
    nb = len(b)

    def one(v):
        v = lift(v)
        t = [lift(v > x) for x in b[:-1]]
        r = sum_els(t) if t else Num(F0, (), 'i')
        over = v > b[-1]
        r = ite(over, Num(F0, (), 'i'), r)
        return Num(r.c, r.f, 'i')
    r = umap(one, y)
    if isinstance(r, SArray):
        r._k = 'i'
    return r


class _Classifier:
    def __init__(self, y, bins):
        self.y = y
        self.bins = bins
        self.k = len(bins)
        self.yb = bin_ids(y, bins)
        self.counts = mk([sum_els([lift(v == j) for v in self.yb._flat()]) for j in range(self.k)], (self.k,), 'i')


class Quantiles(_Classifier):
    def __init__(self, y, k=5):
        y = asarr(y)
        super().__init__(y, quantile_bins(y, k))


class UserDefined(_Classifier):
    def __init__(self, y, bins, lowest=None):
        y = asarr(y)
        b = asarr(bins)
        mx = arr.reduce_(y, core.s_max, None, None)
        if bool(lift(b[-1]) < mx):
            b = NP.append(b, mx)
        super().__init__(y, b)


# ------------------------------------------------------------------ spatial weights
class W:
    """libpysal.weights.W with concrete structure and exact weights"""

    def __init__(self, neighbors, weights=None, id_order=None, **kw):
        self.neighbors = {i: list(v) for i, v in neighbors.items()}
        self._w0 = {i: [lift(x) for x in (weights[i] if weights else [1] * len(v))] for i, v in neighbors.items()}
        self.id_order = list(id_order) if id_order else list(self.neighbors)
        self._t = 'O'
        self.weights = {i: list(v) for i, v in self._w0.items()}

    @property
    def transform(self):
        return self._t

    @transform.setter
    def transform(self, t):
        t = t.upper() if isinstance(t, str) else t
        self._t = t
        if t == 'B':
            self.weights = {i: [Num(F1) for _ in v] for i, v in self.neighbors.items()}
        elif t == 'R':
            out = {}
            for i, v in self._w0.items():
                s = sum_els(v) if v else lift(1)
                out[i] = [x / s for x in v]
            self.weights = out
        elif t == 'O':
            self.weights = {i: list(v) for i, v in self._w0.items()}
        else:
            raise Unsupported('weights transform ' + str(t))

    def set_transform(self, t):
        self.transform = t

    def get_transform(self):
        return self._t

    @property
    def n(self):
        return len(self.id_order)

    @property
    def id2i(self):
        return {v: i for i, v in enumerate(self.id_order)}

    @property
    def cardinalities(self):
        return {i: len(v) for i, v in self.neighbors.items()}

    @property
    def islands(self):
        return [i for i, v in self.neighbors.items() if not v]

    @property
    def s0(self):
        tot = Num(F0)
        for v in self.weights.values():
            for x in v:
                tot = tot + x
        return Num(tot.c, tot.f, 'f')

    @property
    def n_nonzero(self):
        return sum(len(v) for v in self.neighbors.values())

    nonzero = n_nonzero

    def dense(self):
        n = self.n
        ix = self.id2i
        r = arr.zeros((n, n))
        for i, v in self.neighbors.items():
            for j, x in zip(v, self.weights[i]):
                r[ix[i], ix[j]] = x
        return r

    def full(self):
        return self.dense(), list(self.id_order)

    @property
    def sparse(self):
        return _Sparse(self.dense())

    def to_adjlist(self, *a, **k):
        raise Unsupported('to_adjlist')

    def __iter__(self):
        for i in self.id_order:
            yield i, dict(zip(self.neighbors[i], self.weights[i]))

    def __getitem__(self, i):
        return dict(zip(self.neighbors[i], self.weights[i]))


class _Sparse:
    def __init__(self, d):
        self.d = d

    def dot(self, o):
        return arr.np_dot(self.d, o)

    __mul__ = __matmul__ = dot

    def toarray(self):
        return self.d.copy()

    todense = toarray

    def sum(self, axis=None):
        return np_sum(self.d, axis)

    @property
    def A(self):
        return self.d.copy()

    @property
    def T(self):
        return _Sparse(self.d.T)

    def nonzero(self):
        return arr.np_nonzero(self.d)

    def tocoo(self):
        r, c = arr.np_nonzero(self.d)
        return types.SimpleNamespace(row=r, col=c, data=self.d[r, c])


def lag_spatial(w, y):
    return arr.np_dot(w.dense(), asarr(y))


def lag_categorical(w, y, ties='tryself'):
    y = asarr(y)
    if y.ndim > 1 and y.shape[1] > 1:
        return NP.vstack([lag_categorical(w, y[:, c].copy()) for c in range(y.shape[1])]).T
    shp = y.shape
    y = y.flatten()
    labels = arr.np_unique(y)
    lab = labels._flat()
    els = y._flat()
    out = []
    for name in w.id_order:
        nb = dict(zip(w.neighbors[name], w.weights[name]))
        ix = w.id2i
        t = [sum_els([ite(arr.eq_(els[ix[j]], l), x, Num(F0)) for j, x in nb.items()]) if nb else Num(F0) for l in lab]
        i = ix[name]

        def best(t):
            return [q for q in range(len(t)) if all(bool(lift(t[q]) >= o) for o in t)]
        b = best(t)
        if len(b) > 1:
            if not nb:
                raise Unsupported('categorical lag of an island')
            mean = sum_els(list(nb.values())) / len(nb)
            for q, l in enumerate(lab):
                if bool(arr.eq_(els[i], l)):
                    t[q] = t[q] + mean
            b = best(t)
        if len(b) > 1:
            p = ctx().choose('lagtie', len(b))
        else:
            p = 0
        out.append(lab[b[p]])
    r = mk(out, (len(out),), y.kind)
    return r.reshape(shp)


def block_weights(regimes, ids=None, sparse=False, **kw):
    reg = asarr(regimes).flatten()._flat()
    n = len(reg)
    nb = {i: [] for i in range(n)}
    for i in range(n):
        for j in range(n):
            if i != j and bool(arr.eq_(reg[i], reg[j])):
                nb[i].append(j)
    return W(nb)


def lat2W(nrows=5, ncols=5, rook=True, **kw):
    nb = {}
    for r in range(nrows):
        for c in range(ncols):
            i = r * ncols + c
            nb[i] = [rr * ncols + cc for rr, cc in ((r - 1, c), (r, c - 1), (r, c + 1), (r + 1, c)) if 0 <= rr < nrows and 0 <= cc < ncols]
    return W(nb)


# ------------------------------------------------------------------ local Moran statistics
def exact_quads(y, w, geoda=False):
    els = asarr(y).flatten()._flat()
    n = len(els)
    mean = sum_els(els) / n
    z = [lift(v) - mean for v in els]
    ix = w.id2i
    q = []
    for i in w.id_order:
        l = sum_els([z[ix[j]] * x for j, x in zip(w.neighbors[i], w.weights[i])]) if w.neighbors[i] else Num(F0)
        zp, lp = z[ix[i]] > 0, l > 0
        hh, ll, lh, hl = (1, 2, 3, 4) if geoda else (1, 3, 2, 4)
        v = ite(zp, ite(lp, Num(Fraction(hh), (), 'i'), Num(Fraction(hl), (), 'i')),
                ite(lp, Num(Fraction(lh), (), 'i'), Num(Fraction(ll), (), 'i')))
        q.append(v)
    return mk(q, (n,), 'i')


class Moran_Local:
    """quadrants are those of the data (or arbitrary when the harness says so); p-values are arbitrary in [0, 1]"""

    def __init__(self, y, w, transformation='r', permutations=999, geoda_quads=False, n_jobs=1, keep_simulations=True,
                 seed=None, island_weight=0, alternative=None, **kw):
        c = ctx()
        y = asarr(y).flatten()
        self.y = y
        n = self.n = len(y)
        w.transform = transformation
        self.w = w
        self.permutations = permutations
        self.geoda_quads = geoda_quads
        self.rng_at_start = c.rng
        c.moran_calls.append(self)
        idx = len(c.moran_calls) - 1
        if c.moran_mode == 'exact':
            self.q = exact_quads(y, w, geoda_quads)
        else:
            self.q = c.fd_array(f'moran_q{idx}', (n,), 1, 4)
        if permutations:
            c.rng = ('drawn', c.rng, 'moran')
            if c.faults:
                c.drawing('moran', (self,), {})       # may be interrupted while it draws
            self.p_sim = c.real_array(f'moran_p{idx}', (n,), 0, 1)
            self.p_z_sim = c.real_array(f'moran_pz{idx}', (n,), 0, 1)
            if c.fixed_pz:
                for i, v in enumerate(c.fixed_pz[idx]):
                    if v is not None:
                        self.p_z_sim[i] = Num(Fraction(v, 100))
            self.z_sim = None

    def plot(self, *a, **k):
        ctx().onto.append(None)
        ctx().drawing('moran.plot', (self,) + a, k)
        return (Drawn('fig'), Drawn('ax'))


# ------------------------------------------------------------------ drawing
class Drawn(fakes.Drawn):
    """an object of the drawing back end: every call on it may fail when the harness injects a fault"""

    @staticmethod
    def _c():
        return ctx()


class RcParams:
    def _d(self):
        return ctx().rc

    def __getitem__(self, k):
        d = self._d()
        if k not in d:
            d[k] = 'default:' + k
            ctx().rc0.setdefault(k, d[k])
        return d[k]

    def __setitem__(self, k, v):
        self.__getitem__(k)
        self._d()[k] = v

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v

    def copy(self):
        return _RcCopy(dict(self._d()))

    def get(self, k, d=None):
        return self[k]

    def __contains__(self, k):
        return True

    def keys(self):
        return list(self._d().keys())

    def items(self):
        return list(self._d().items())


class _RcCopy(dict):
    def __missing__(self, k):
        return 'default:' + k


class _RcContext:
    def __init__(self, rc=None, fname=None):
        self.new = dict(rc or {})

    def __enter__(self):
        c = ctx()
        self.saved = dict(c.rc)
        for k, v in self.new.items():
            RCP[k] = v

    def __exit__(self, *a):
        c = ctx()
        keys = set(c.rc)
        for k in keys:
            c.rc[k] = self.saved.get(k, 'default:' + k)
        return False

    def __call__(self, f):
        def g(*a, **k):
            with _RcContext(self.new):
                return f(*a, **k)
        return g


RCP = RcParams()


class _Style:
    def use(self, *a):
        RCP['style'] = str(a)

    def context(self, *a, **k):
        return _RcContext({})


class _Mpl(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Drawn('mpl.' + n)


def _rc(group, **kw):
    for k, v in kw.items():
        RCP[f'{group}.{k}'] = v


def _rcdefaults():
    c = ctx()
    for k in list(c.rc):
        c.rc[k] = 'factory:' + k


mpl = _Mpl('matplotlib')
mpl.rcParams = RCP
mpl.rc_context = _RcContext
mpl.rc = _rc
mpl.rcdefaults = _rcdefaults
mpl.style = _Style()
mpl.__path__ = []
plt = _Mpl('matplotlib.pyplot')
plt.rcParams = RCP
plt.rc_context = _RcContext
plt.rc = _rc
plt.style = _Style()
plt.figure = Drawn('plt.figure')
plt.subplots = lambda *a, **k: (Drawn('plt.subplots')(*a, **k), Drawn('ax'))
mpl.pyplot = plt
sns = _Mpl('seaborn')


def _heatmap(data, **kw):
    c = ctx()
    c.heat.append((data, kw))
    c.onto.append(None)
    c.drawing('sns.heatmap', (data,), kw)
    return kw.get('ax') or Drawn('ax')


sns.heatmap = _heatmap


def _sns_global(n):
    def f(*a, **k):
        RCP['seaborn:' + n] = repr((a, sorted(k)))
    return f


for _n in ('set', 'set_theme', 'set_style', 'set_context', 'set_palette', 'reset_defaults', 'reset_orig'):
    setattr(sns, _n, _sns_global(_n))
sns.axes_style = sns.plotting_context = lambda *a, **k: _RcContext({})


def externals():
    import packaging.version
    stats = module('scipy.stats', chi2=_Chi2, norm=_Norm, rankdata=rankdata)
    mst = module('scipy.stats.mstats', rankdata=ms_rankdata)
    stats.mstats = mst
    special = module('scipy.special', erfc=f_erfc, erf=f_erf, ndtr=lambda z: _Norm.cdf(z),
                     chdtrc=lambda v, x: 1 - chi2cdf(x, v), chdtr=lambda v, x: chi2cdf(x, v))
    dist = module('scipy.spatial.distance', pdist=pdist, squareform=squareform)
    spatial = module('scipy.spatial', distance=dist)
    sla = arr.NP.linalg
    scipy = module('scipy', stats=stats, special=special, spatial=spatial, linalg=sla)
    wmod = module('libpysal.weights', lag_spatial=lag_spatial, lag_categorical=lag_categorical,
                  block_weights=block_weights, W=W, lat2W=lat2W)
    libpysal = module('libpysal', weights=wmod)
    moran = module('esda.moran', Moran_Local=Moran_Local)
    esda = module('esda', moran=moran, __version__='2.10.0', Moran_Local=Moran_Local)
    mc = module('mapclassify', Quantiles=Quantiles, UserDefined=UserDefined)
    qe = module('quantecon', MarkovChain=MarkovChain)
    warn = module('warnings', warn=lambda *a, **k: None, catch_warnings=arr._Null, simplefilter=lambda *a, **k: None,
                  filterwarnings=lambda *a, **k: None)
    qem = module('quantecon.markov', MarkovChain=MarkovChain)
    qe.markov = qem
    mth = module('math', sqrt=num_sqrt, log=num_log, floor=lambda v: lift(v).floor().trunc(),
                 ceil=lambda v: lift(v).ceil().trunc(), isnan=lambda v: lift(v).sp == 'nan',
                 isinf=lambda v: lift(v).sp in ('inf', '-inf'), fabs=lambda v: abs(lift(v)), inf=core.INF, nan=NAN,
                 atan2=arctan2, hypot=lambda a, b: num_sqrt(lift(a) * a + lift(b) * b), erfc=f_erfc, erf=f_erf,
                 prod=lambda xs: __import__('functools').reduce(lambda a, b: a * b, xs, 1),
                 fsum=lambda xs: sum_els(list(xs)), isclose=lambda a, b, **k: arr.isclose(a, b), gcd=__import__('math').gcd,
                 factorial=lambda n: __import__('math').factorial(int(n)), comb=lambda n, k: __import__('math').comb(int(n), int(k)))
    packaging = module('packaging')
    packaging.version = packaging_version = module('packaging.version', Version=__import__('packaging.version').version.Version)
    ipyw = module('ipywidgets', fixed=lambda v: v, interact=lambda f, **k: ctx().interact.append((f, k)))
    return dict(numpy=NP, scipy=scipy, libpysal=libpysal, esda=esda, mapclassify=mc, quantecon=qe, matplotlib=mpl,
                seaborn=sns, warnings=warn, math=mth, packaging=packaging, ipywidgets=ipyw)
