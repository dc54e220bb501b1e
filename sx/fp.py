"""IEEE double arithmetic over symbolic integer counts.

While `core.FPMODE` is on, the quotient of two symbolic integers is a correctly rounded double (`FPNum`), and what the
code under test computes from it stays in z3's Float64 theory.  The integers are sums of weights (`WL`): a row of the
panel whose multiplicity is an unknown of the solver.  Integers stay below 2**52 and are exact.
"""
import math
from fractions import Fraction
from . import core
from .core import Num, SymB, Poly, Unsupported, F0, F1, z3

RM = z3.RNE()
F64 = z3.Float64()
BITS = 32
_BV = {}


def weight(c, name, hi):
    """unknown positive integer; lives in the bit vector theory"""
    bv = z3.BitVec(name, BITS)
    z = z3.ToReal(z3.BV2Int(bv))
    core._keep += [bv, z]
    a = core.new_atom(('w', name), z, 'real', nonneg=True, isint=True, lo=F1, hi=Fraction(hi))
    _BV[a.id] = bv
    for q in (z3.UGE(bv, 1), z3.ULE(bv, hi)):
        c.path.solver.add(q)
        c.path.pc.append(q)
    c.path.posat.add(a.id)
    r = Num.of_poly(Poly.atom(a), 'i')
    c.inputs[name] = r
    return r


class WBool(SymB):
    """true, for as many units as the weight says"""
    __slots__ = ('w',)
    weighted = True

    def __init__(self, w):
        super().__init__(z3.BoolVal(True))
        self.w = w

    def poly(self):
        return self.w.poly()

    def red(self):
        return None

    def __bool__(self):
        return True

    def __invert__(self):
        return False


class WL(Num):
    """constant label carried by a number of units"""
    __slots__ = ('w',)

    def __init__(self, v, w):
        super().__init__(Fraction(v), (), 'i')
        self.w = w

    def __eq__(self, o):
        r = Num.__eq__(strip(self), strip(o))
        return WBool(self.w) if r is True else r

    def __ne__(self, o):
        r = Num.__ne__(strip(self), strip(o))
        return WBool(self.w) if r is True else r

    def __hash__(self):
        return Num.__hash__(self)


def strip(v):
    return Num(v.c, v.f, v.kind) if isinstance(v, WL) else v


def _dn(f):
    return Fraction(math.nextafter(float(f), -math.inf)) if abs(f) < 10 ** 300 else None


def _up(f):
    return Fraction(math.nextafter(float(f), math.inf)) if abs(f) < 10 ** 300 else None


def int_bv(p):
    """64-bit term of an integer polynomial over weights"""
    tot = z3.BitVecVal(0, 64)
    for m, c in p.t.items():
        if c.denominator != 1:
            raise Unsupported('fractional count')
        t = z3.BitVecVal(c.numerator, 64)
        for a in m:
            if a not in _BV:
                raise Unsupported('rounding of an unknown that is no count')
            t = t * z3.ZeroExt(64 - BITS, _BV[a])
        tot = tot + t
    return tot


def int_term(p):
    """exact double of an integer polynomial over weights"""
    return z3.fpSignedToFP(RM, z3.simplify(int_bv(p)), F64)


class FPNum(Num):
    """a double: rounded quotient of integers (num, den), or a Float64 term with an interval"""
    __slots__ = ('num', 'den', 'term', 'lo', 'hi')

    def __init__(self, num=None, den=None, term=None, lo=None, hi=None):
        self.num, self.den, self.term, self.lo, self.hi = num, den, term, lo, hi
        self.kind, self.sp, self.py = 'f', None, False

    c = property(lambda s: (_ for _ in ()).throw(Unsupported('rounded number')))
    f = property(lambda s: (_ for _ in ()).throw(Unsupported('rounded number')))

    def red(self):
        return self

    def is_const(self):
        return False

    def is_zero(self):
        return False

    def poly(self):
        return None

    def atoms(self):
        return set()

    def cancel(self):
        return self

    def z(self):
        raise Unsupported('rounded number')

    def t(self):
        if self.term is None:
            self.term = z3.fpDiv(RM, int_term(self.num), int_term(self.den))
        return self.term

    # arithmetic
    def _op(self, o, op, swap=False):
        o = core.lift(o)
        if o is NotImplemented:
            return NotImplemented
        if o.sp:
            raise Unsupported('rounded number with ' + o.sp)
        if not isinstance(o, FPNum):
            if not o.f and o.c == 0 and op in '+-':
                return -self if swap and op == '-' else self
            if not o.f and o.c == 1 and (op == '*' or op == '/' and not swap):
                return self
            if not o.f and o.c == 0 and op == '*':
                return Num(F0)
            o = of(o)
        a, b = (o, self) if swap else (self, o)
        return arith(a, b, op)

    def __add__(self, o):
        return self._op(o, '+')

    def __radd__(self, o):
        return self._op(o, '+', True)

    def __sub__(self, o):
        return self._op(o, '-')

    def __rsub__(self, o):
        return self._op(o, '-', True)

    def __mul__(self, o):
        return self._op(o, '*')

    def __rmul__(self, o):
        return self._op(o, '*', True)

    def __truediv__(self, o):
        return self._op(o, '/')

    def __rtruediv__(self, o):
        return self._op(o, '/', True)

    def __neg__(self):
        if self.num is not None:
            return FPNum(-self.num, self.den, None, -self.hi, -self.lo)
        return FPNum(None, None, z3.fpNeg(self.t()), -self.hi if self.hi is not None else None,
                     -self.lo if self.lo is not None else None)

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        if self.hi is not None and self.hi <= 0:
            return -self
        m = None if self.lo is None or self.hi is None else max(abs(self.lo), abs(self.hi))
        return FPNum(None, None, z3.fpAbs(self.t()), F0, m)

    def __pow__(self, e):
        e = core.lift(e)
        if e.is_const() and e.c == 2:
            return self * self
        if e.is_const() and e.c == -1:
            return 1 / self
        raise Unsupported('power of a rounded number')

    __hash__ = object.__hash__

    # comparisons
    def _cmp(self, o, op):
        o = core.lift(o)
        if o is NotImplemented:
            return NotImplemented
        if o.sp:
            raise Unsupported('comparison with ' + o.sp)
        if not isinstance(o, FPNum) and not o.f and self.num is not None and o.c in (0, 1, -1):
            # rounding to nearest keeps the order against numbers a double can represent
            a, b = Num.of_poly(self.num, 'i'), Num.of_poly(self.den.scale(o.c), 'i')
            return {'==': a.__eq__, '!=': a.__ne__, '<': a.__lt__, '<=': a.__le__, '>': a.__gt__, '>=': a.__ge__}[op](b)
        b = o if isinstance(o, FPNum) else of(o)
        if None not in (self.lo, self.hi, b.lo, b.hi):
            if self.hi < b.lo:
                return op in ('<', '<=', '!=')
            if self.lo > b.hi:
                return op in ('>', '>=', '!=')
            if self.hi <= b.lo and op in ('<=', '>'):
                return op == '<='
            if self.lo >= b.hi and op in ('>=', '<'):
                return op == '>='
        if self.num is not None and self.num == b.num and self.den == b.den:
            return op in ('==', '<=', '>=')
        x, y = self.t(), b.t()
        if x.eq(y):
            return op in ('==', '<=', '>=')
        z = {'==': z3.fpEQ, '!=': z3.fpNEQ, '<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ}[op](x, y)
        core._keep.append(z)
        return SymB(z)

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __repr__(self):
        return '<double>'


def of(x):
    """a Num as a double"""
    if isinstance(x, FPNum):
        return x
    if not x.f:
        v = Fraction(float(x.c))
        return FPNum(None, None, z3.FPVal(float(x.c), F64), v, v)
    p = x.poly()
    if p is None or not p.isint():
        raise Unsupported('rounding of a fraction')
    b = p.bounds()
    if b is None or max(abs(b[0]), abs(b[1])) >= 2 ** 52:
        raise Unsupported('count too large for the encoding')
    return FPNum(None, None, int_term(p), b[0], b[1])


def _ivl(a, b, op):
    if None in (a.lo, a.hi, b.lo, b.hi):
        return None, None
    if op == '/':
        if b.lo <= 0 <= b.hi:
            return None, None
        vs = [x / y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    elif op == '*':
        vs = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    elif op == '+':
        vs = [a.lo + b.lo, a.hi + b.hi]
    else:
        vs = [a.lo - b.hi, a.hi - b.lo]
    lo, hi = min(vs), max(vs)
    # rounding never crosses a double
    dl, du = _dn(lo), _up(hi)
    if dl is not None and float(lo) == lo:
        dl = lo
    if du is not None and float(hi) == hi:
        du = hi
    return dl, du


def arith(a, b, op):
    lo, hi = _ivl(a, b, op)
    f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op]
    return FPNum(None, None, f(RM, a.t(), b.t()), lo, hi)


def quotient(a, b):
    """rounded quotient of exact numbers, b not zero on this path; None when it is exact"""
    if isinstance(a, FPNum) or isinstance(b, FPNum):
        return None
    if a.sp or b.sp:
        return None
    if not a.f and not b.f:
        return Num(Fraction(float(a.c) / float(b.c)), (), 'f', None, a.py and b.py)
    p, q = a.poly(), b.poly()
    if p is None or q is None or not p.isint() or not q.isint():
        return arith(of(a), of(b), '/')
    if not p.t:
        return None
    if p == q:
        return Num(F1)
    if q.is_const() and abs(q.cval()) == 1:
        return None
    bp, bq = p.bounds(), q.bounds()
    for x in (bp, bq):
        if x is None or max(abs(x[0]), abs(x[1])) >= 2 ** 52:
            raise Unsupported('count too large for the encoding')
    if q.sign() != 1:
        return arith(of(a), of(b), '/')
    lo, hi = _ivl(FPNum(lo=bp[0], hi=bp[1]), FPNum(lo=max(bq[0], F1), hi=bq[1]), '/')
    if p.sign() in (0, 1) and (q - p).sign() in (0, 1):
        lo, hi = max(lo, F0), min(hi, F1)
    return FPNum(p, q, None, lo, hi)


def check(path, assumptions):
    """floating point queries go to a bit blasting solver"""
    s = z3.Then('simplify', 'propagate-values', 'fpa2bv', 'simplify', 'bit-blast', 'sat').solver()
    s.set('timeout', max(path.timeout_ms, 60000))
    for q in path.solver.assertions():
        s.add(q)
    for q in assumptions:
        s.add(q)
    r = s.check()
    if r == z3.sat:
        path.fpmodel = s.model()
    return r
