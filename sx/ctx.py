"""Symbolic harness context."""
from fractions import Fraction
import numpy as rnp
from . import core, arr, stubs, fp
from .core import Num, SymB, Poly, lift, ite, b_and, b_or, b_not, b_any, b_all, Unsupported, F0, F1
from .arr import SArray, asarr, mk


class BackendError(RuntimeError):
    """a failure of the drawing back end injected by the harness"""


class NS:
    """attribute access to the symbolic modules of giddy"""

    def __init__(self, program):
        self._p = program

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self._p.module('giddy.' + n)


class SymCtx:
    scripted = None
    fixed_pz = None

    sym = True

    def __init__(self, path, program, known=()):
        self.path = path
        path.ctx = self
        self.g = NS(program)
        self.np = arr.NP
        self.obs = []
        self.inputs = {}
        self.relaxed = {}
        self.draws = []
        self.choices = []
        self.rng = 'initial'
        self.moran_calls = []
        self.moran_mode = 'free'
        self.rc = {}
        self.rc0 = {}
        self.heat = []
        self.interact = []
        self.faults = False
        self.calls = []
        self.onto = []
        self.printed = []
        self.ndraw = 0
        self.discharged = 0
        self.Backend = BackendError
        self._n = {}

    def renew(self):
        """go on with an instance of the package that has computed nothing yet"""
        from . import load
        old = self.g._p
        new = load.Program(old.ext, old.repo)
        new.functions = old.functions
        self.g = NS(new)

    # ---- inputs
    def fd(self, name, lo, hi):
        if name in self.inputs:
            return self.inputs[name]
        lo, hi = int(lo), int(hi)
        if lo == hi:
            v = Num(Fraction(lo), (), 'i')
            self.inputs[name] = v
            return v
        ats = []
        zs = []
        for v in range(lo + 1, hi + 1):
            zb = core.z3.Bool(f'{name}={v}')
            zs.append(zb)
            a = core.new_atom(('fd', name, v), core.z3.If(zb, core.z3.RealVal(1), core.z3.RealVal(0)), 'ind', nonneg=True,
                              isint=True, cond=zb, group=name, gval=v, lo=F0, hi=F1)
            core._by_key[('c', zb.get_id())] = a
            core._keep.append(zb)
            ats.append(a)
        core.FDGROUPS[name] = ats
        for i in range(len(zs)):
            for j in range(i):
                self.path.solver.add(core.z3.Not(core.z3.And(zs[i], zs[j])))
        t = {}
        if lo:
            t[()] = Fraction(lo)
        for a in ats:
            if a.gval != lo:
                t[(a.id,)] = Fraction(a.gval - lo)
        r = Num.of_poly(Poly(t), 'i')
        self.inputs[name] = r
        return r

    def bool_(self, name):
        if name in self.inputs:
            return self.inputs[name]
        zb = core.z3.Bool(name)
        core._keep.append(zb)
        a = core.cond_atom(zb)
        r = SymB(zb, Poly.atom(a))
        self.inputs[name] = r
        return r

    def real(self, name, lo=None, hi=None, strict=False):
        if name in self.inputs:
            return self.inputs[name]
        z = core.z3.Real(name)
        a = core.new_atom(('in', name), z, 'real', nonneg=lo is not None and lo >= 0)
        if lo is not None and hi is not None:
            a.lo, a.hi = Fraction(lo), Fraction(hi)
        if lo is not None:
            self.path.add(z > core._rv(Fraction(lo)) if strict else z >= core._rv(Fraction(lo)))
        if hi is not None:
            self.path.add(z < core._rv(Fraction(hi)) if strict else z <= core._rv(Fraction(hi)))
        if lo is not None and (lo > 0 or strict and lo == 0):
            self.path.posat.add(a.id)
        r = Num.of_poly(Poly.atom(a))
        self.inputs[name] = r
        return r

    def int_(self, name, lo=None, hi=None, relaxed=False):
        if name in self.inputs:
            return self.inputs[name]
        if relaxed:
            # proved for all reals; counterexamples must be integers
            r = self.real(name, lo, hi)
            a = core.ATOMS[next(iter(next(iter(r.f[0][0].t))))]
            a.isint = True
            r = Num(r.c, r.f, 'i')
            self.inputs[name] = r
            self.relaxed[name] = r
            return r
        z = core.z3.Int(name)
        zr = core.z3.ToReal(z)
        core._keep.append(zr)
        a = core.new_atom(('in', name), zr, 'real', nonneg=lo is not None and lo >= 0, isint=True)
        if lo is not None and hi is not None:
            a.lo, a.hi = Fraction(lo), Fraction(hi)
        if lo is not None:
            self.path.add(z >= int(lo))
        if hi is not None:
            self.path.add(z <= int(hi))
        r = Num.of_poly(Poly.atom(a), 'i')
        self.inputs[name] = r
        return r

    def _nested(self, name, shape, f):
        def rec(nm, shp):
            if not shp:
                return f(nm)
            return [rec(f'{nm}_{i}', shp[1:]) for i in range(shp[0])]
        return rec(name, shape)

    def fds(self, name, shape, lo, hi):
        return self._nested(name, shape, lambda n: self.fd(n, lo, hi))

    def reals(self, name, shape, lo=None, hi=None, strict=False):
        return self._nested(name, shape, lambda n: self.real(n, lo, hi, strict))

    def ints(self, name, shape, lo=None, hi=None, relaxed=False):
        return self._nested(name, shape, lambda n: self.int_(n, lo, hi, relaxed))

    def bools(self, name, shape):
        return self._nested(name, shape, self.bool_)

    def weighted(self, rows, hi, exact=False):
        """panel whose row i stands for an unknown number of equal units; quotients are rounded from here on"""
        core.FPMODE = not exact
        out = []
        for i, r in enumerate(rows):
            w = self.int_(f'units{i}', 1, hi) if exact else fp.weight(self, f'units{i}', hi)
            out.append([fp.WL(v, w) for v in r])
        return self.array(out)

    def units(self, i, hi):
        """number of units that row i of the weighted panel stands for"""
        return self.inputs[f'units{i}']

    def fd_array(self, name, shape, lo, hi):
        return self.array(self.fds(name, shape, lo, hi))

    def real_array(self, name, shape, lo=None, hi=None):
        return self.array(self.reals(name, shape, lo, hi))

    def array(self, nested, kind=None):
        r = asarr(nested)
        if isinstance(nested, SArray):
            r = r.copy()
        if kind and r.kind != kind:
            r = arr.np_astype(r, arr._DtypeShim(kind))
        r._k = kind or r.kind
        return r

    def choose(self, name, n):
        """nondeterministic choice, explored exhaustively"""
        self._n[name] = self._n.get(name, 0) + 1
        x = self.fd(f'{name}#{self._n[name]}', 0, n - 1)
        for v in range(n - 1):
            if bool(x == v):
                self.choices.append(v)
                return v
        self.choices.append(n - 1)
        return n - 1

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def fork(self, cond):
        """branch on a condition"""
        return bool(cond)

    def value(self, x):
        """concretise (forks)"""
        return int(x)

    def draw_perm(self, n):
        if self.scripted is not None:
            # many draws: fixed ones instead of arbitrary ones
            from checks.common import scripted
            out = scripted(self.scripted, len(self.draws), n)
            self.draws.append(out)
            return out
        rest = list(range(n))
        out = []
        while len(rest) > 1:
            out.append(rest.pop(self.choose('perm', len(rest))))
        out += rest
        self.draws.append(out)
        return out

    def graph(self, n, name='w', islands=True, connected=False, symmetric=True, ids=None):
        """arbitrary neighbour structure (explored exhaustively)"""
        ids = ids or list(range(n))
        nb = {i: [] for i in ids}
        for i in range(n):
            for j in range(i):
                if bool(self.bool_(f'{name}_{j}_{i}')):
                    nb[ids[i]].append(ids[j])
                    nb[ids[j]].append(ids[i])
        for i in nb:
            nb[i].sort(key=ids.index)
        if not islands and any(not v for v in nb.values()):
            raise core.Infeasible()
        return self.W(nb, ids)

    def W(self, neighbors, id_order=None, weights=None):
        return stubs.W(neighbors, weights, id_order)

    def drawn(self, name):
        """an axes object of the drawing back end"""
        return stubs.Drawn(name)

    def drawing(self, name, a=(), k=None):
        self.ndraw += 1
        self.calls.append((name, a, k or {}))
        if self.faults and bool(self.bool_(f'fault#{self.ndraw}')):
            raise BackendError(f'{name}')

    def param(self, name, value):
        return value

    def fractions(self, lim=40):
        """keep sums of many fractions as sums instead of one fraction"""
        core.FRACLIM = lim

    # ---- logic
    def assume(self, c):
        if isinstance(c, SymB):
            v = self.path.known(c)
            if v is True:
                return
            if v is False:
                raise core.Infeasible()
            self.path._defs_for(c.z)
            self.path._take(c, True)
            if self.path.check() == core.z3.unsat:
                raise core.Infeasible()
        elif not c:
            raise core.Infeasible()

    def check(self, label, c, info=None):
        if isinstance(c, arr.SMasked):
            c = c.all()
        if isinstance(c, SArray):
            c = c.all()
        if isinstance(c, SymB):
            v = self.path.known(c)
            if v is not None:
                c = v
        if not isinstance(c, SymB) and bool(c):
            self.discharged += 1
            return
        self.obs.append((label, c, getattr(c, 'strong', None)))

    def eq(self, a, b):
        a, b = _el(a), _el(b)
        if a is None or b is None:
            return a is b
        if core.isb(a) and core.isb(b):
            return core.b_eq(a, b)
        x, y = lift(a), lift(b)
        if x is NotImplemented or y is NotImplemented:
            return a == b
        if x.sp or y.sp:
            return x.sp == y.sp
        r = x == y
        if isinstance(r, SymB) and core.FRACS:
            d = (x - y).red()
            if not d.atoms().isdisjoint(core.FRACS):
                try:
                    lim, core.FRACLIM = core.FRACLIM, None
                    d = core.expand_fracs(d)
                    if d.is_zero():
                        return True
                except Unsupported:
                    pass
                finally:
                    core.FRACLIM = lim
        if isinstance(r, SymB):
            try:
                d = (x - y).red().z()
                t = core._rv(Fraction(1, 1000))
                r.strong = core.z3.Or(d > t, d < -t)
            except Exception:
                pass
        return r

    def arr_eq(self, A, B):
        A, B = asarr(A), asarr(B)
        if A.shape != B.shape:
            return False
        cs = [self.eq(x, y) for x, y in zip(A._flat(), B._flat())]
        return self.all_(cs)

    def check_eq(self, label, A, B):
        """one obligation per element"""
        if not isinstance(A, (SArray, list, tuple, rnp.ndarray, arr.SMasked)):
            return self.check(label, self.eq(A, B))
        A, B = asarr(A), asarr(B)
        if A.shape != B.shape:
            return self.check(label + ':shape', False)
        for x, y in zip(A._flat(), B._flat()):
            self.check(label, self.eq(x, y))

    def and_(self, *c):
        return self.all_(c)

    def or_(self, *c):
        return b_any([_bb(x) for x in c])

    def not_(self, c):
        return b_not(_bb(c))

    def implies(self, a, b):
        return b_or(b_not(_bb(a)), _bb(b))

    def iff(self, a, b):
        return core.b_eq(_bb(a), _bb(b))

    def all_(self, cs):
        cs = [_bb(x) for x in cs]
        st = [c.strong for c in cs if isinstance(c, SymB) and c.strong is not None]
        r = b_all(cs)
        if isinstance(r, SymB) and st:
            r.strong = core.z3.Or(st) if len(st) > 1 else st[0]
        return r

    def any_(self, cs):
        return b_any([_bb(x) for x in cs])

    def ite(self, c, a, b):
        return ite(_bb(c), a, b)

    def ind(self, c):
        return lift(_bb(c)) if isinstance(_bb(c), SymB) else Num(Fraction(int(bool(c))), (), 'i')

    def count(self, cs):
        return arr.sum_els([self.ind(c) for c in cs]) if cs else Num(F0, (), 'i')

    def sum(self, xs):
        xs = list(xs)
        return arr.sum_els([lift(_el(x)) for x in xs]) if xs else Num(F0, (), 'i')

    def num(self, x):
        r = lift(_el(x))
        return Num(r.c, r.f, r.kind, r.sp, False)

    def div(self, a, b):
        return lift(a) / self.num(b)

    def abs(self, x):
        return abs(lift(x))

    def min(self, xs):
        xs = list(xs)
        r = xs[0]
        for x in xs[1:]:
            r = core.s_min(r, x)
        return r

    def max(self, xs):
        xs = list(xs)
        r = xs[0]
        for x in xs[1:]:
            r = core.s_max(r, x)
        return r

    def sqrt(self, x):
        return core.num_sqrt(x)

    def log(self, x):
        return core.num_log(x)

    def erfc(self, x):
        return stubs.f_erfc(x)

    def chi2sf(self, x, d):
        return 1 - stubs.chi2cdf(x, d)

    def arctan2(self, y, x):
        return stubs.arctan2(y, x)

    @property
    def pi(self):
        return arr.PI()

    def isnan(self, x):
        return lift(_el(x)).sp == 'nan'

    def isinf(self, x):
        return lift(_el(x)).sp in ('inf', '-inf')

    def items(self, a):
        """nested Python lists of elements"""
        a = asarr(a)

        def rec(b):
            if not isinstance(b, rnp.ndarray):
                return b
            if b.ndim == 0:
                return b.item()
            return [rec(b[i]) for i in range(len(b))]
        return rec(a.base_())

    def shape(self, a):
        return tuple(asarr(a).shape)

    def copy(self, a):
        return self.items(a)

    def quantiles(self, y, k):
        """cutoffs of mapclassify.Quantiles"""
        return stubs.quantile_bins(y, k)._flat()

    def shallow(self, f):
        """f() within about the depth of calls that Python allows by default"""
        import sys
        d, q = 0, sys._getframe()
        while q is not None:
            d, q = d + 1, q.f_back
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(min(old, d + 1200))
        try:
            return f()
        finally:
            sys.setrecursionlimit(old)

    def raises(self, f, *exc):
        """(exception or None, result)"""
        try:
            return None, f()
        except core.PathAbort:
            raise
        except Unsupported:
            raise
        except exc or (Exception,) as e:
            return e, None

    def close(self, a, b, tol):
        d = self.sub(a, b) if hasattr(self, 'sub') else _el(a) - _el(b)
        d = lift(d)
        if d.sp:
            return self.eq(a, b)
        return b_and(d <= tol, d >= -tol)

    def said(self, f):
        """what a call prints"""
        del self.printed[:]
        f()
        return ''.join(self.printed)

    def spoken(self, word):
        """number a printed word stands for, and half a unit of its last digit; or None"""
        if len(word) == 1 and 0xE000 <= ord(word) < 0xE000 + len(core.TOKENS):
            return core.TOKENS[ord(word) - 0xE000], 0
        return number(word)

    def eigmods(self, P):
        """moduli of the eigenvalues"""
        return [abs(v) if isinstance(v, stubs.CNum) else self.abs(v) for v in stubs.eigenvalues([[lift(v) for v in r] for r in P])]

    def stationary(self, P):
        return stubs.stationary(P)

    def rcparams(self):
        return dict(self.rc), dict(self.rc0)

    def rng_state(self):
        return self.rng


def number(word):
    try:
        v = float(word)
    except ValueError:
        return None
    if v != v:
        return core.NAN, 0
    nd = len(word.split('.')[1]) if '.' in word and 'e' not in word else 0
    return lift(v), Fraction(1, 2 * 10 ** nd) if '.' in word else 0


def _el(x):
    if isinstance(x, SArray) and x.size == 1:
        return x._flat()[0]
    return x


def _bb(c):
    c = _el(c)
    if isinstance(c, Num):
        return c != 0
    if isinstance(c, SArray):
        return c.all()
    if isinstance(c, arr.SMasked):
        return c.all()
    if isinstance(c, rnp.bool_):
        return bool(c)
    return c
