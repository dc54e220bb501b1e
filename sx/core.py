"""Symbolic numbers, symbolic booleans and path exploration.

A number is a factored rational function  coef * prod(poly_i ** e_i)  over atoms.  An atom is a z3 term:
an unknown real or integer, the 0/1 indicator of a z3 condition, or an uninterpreted application
(log, sqrt, erfc, chi2 tail, angle).  Numbers are exact: floating point is treated as real arithmetic.
Every Python branch on a symbolic condition is decided by the path explorer with z3.
"""
import sys, time
from fractions import Fraction
from math import isqrt
Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if Z3PATH not in sys.path:
    sys.path.append(Z3PATH)
import z3

F0, F1 = Fraction(0), Fraction(1)


class PathAbort(BaseException):
    """Path steering (never caught by code under test)."""


class Infeasible(PathAbort):
    pass


class Unsupported(Exception):
    """The engine cannot represent this operation."""


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'z', 'sort', 'nonneg', 'isint', 'cond', 'group', 'gval', 'origin', 'lo', 'hi', 'defs',
                 'radicand', 'surd')


FPMODE = False      # quotients of symbolic integers are rounded to doubles (sx/fp.py)
ATOMS = []          # id -> Atom
_by_key = {}


def reset():
    """forget all atoms but the first (pi); every path starts from the same table"""
    del ATOMS[1:]
    keep = {k: a for k, a in _by_key.items() if a.id == 0}
    _by_key.clear()
    _by_key.update(keep)
    FDGROUPS.clear()
    FRACS.clear()
    _NL.clear()
    del TOKENS[:]
    global FRACLIM, FPMODE
    FRACLIM = None
    FPMODE = False
    _ZATOM.clear()
    _ZPOLY.clear()
    keepn = {n: a for n, a in _DEFNAMES.items() if a.id == 0}
    _DEFNAMES.clear()
    _DEFNAMES.update(keepn)
    del _keep[:]
    UF.clear()


def new_atom(key, z, sort, nonneg=False, isint=False, cond=None, group=None, gval=None, origin=None, lo=None,
             hi=None, defs=(), radicand=None):
    a = _by_key.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.z, a.sort, a.nonneg, a.isint, a.cond = z, sort, nonneg, isint, cond
    a.group, a.gval, a.origin, a.lo, a.hi, a.defs, a.radicand = group, gval, origin, lo, hi, tuple(defs), radicand
    a.surd = None
    ATOMS.append(a)
    _by_key[key] = a
    return a


def cond_atom(zc, origin=None):
    """Indicator atom of a z3 Bool."""
    return new_atom(('c', zc.get_id()), z3.If(zc, z3.RealVal(1), z3.RealVal(0)), 'ind', nonneg=True, isint=True,
                    cond=zc, origin=origin, lo=F0, hi=F1)


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ('t', '_key', '_atoms', '_z')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._atoms = None
        self._z = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({(a.id,): F1})

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def atoms(self):
        if self._atoms is None:
            s = set()
            for m in self.t:
                s.update(m)
            self._atoms = frozenset(s)
        return self._atoms

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), F0)

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, F0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def scale(self, c):
        if not c:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.t.items()})

    def __neg__(self):
        return self.scale(Fraction(-1))

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.t) * len(o.t) > 60000:
            raise Unsupported('polynomial too large')
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                if m is None:
                    continue
                v = t.get(m, F0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Poly(t)

    def subs(self, asg):
        t = {}
        for m, c in self.t.items():
            nm = []
            for a in m:
                v = asg.get(a)
                if v is None:
                    nm.append(a)
                else:
                    c = c * v
                    if not c:
                        break
            if c:
                nm = tuple(nm)
                v = t.get(nm, F0) + c
                if v:
                    t[nm] = v
                else:
                    t.pop(nm, None)
        return Poly(t)

    def content(self):
        """(c, prim) with self = c*prim, prim having coprime integer coefs and positive leading coef."""
        from math import gcd
        n, d = 0, 1
        for c in self.t.values():
            n = gcd(n, c.numerator)
            d = d * c.denominator // gcd(d, c.denominator)
        k = Fraction(n, d)
        lead = max(self.t)
        if self.t[lead] < 0:
            k = -k
        return k, (self if k == 1 else Poly({m: v / k for m, v in self.t.items()}))

    def sign(self):
        """Syntactic sign: 1 if certainly > 0, 0 if certainly >= 0, -1 if <=0, None unknown (weak)."""
        s = surd_sign(self)
        if s is not None:
            return (-2, 0, 1)[s + 1]
        pos = neg = False
        strict = False
        known = CUR.posat if CUR is not None else ()
        for m, c in self.t.items():
            # monomial nonneg if every odd-power atom is nonneg
            ok = True
            st = True
            i = 0
            while i < len(m):
                j = i
                while j < len(m) and m[j] == m[i]:
                    j += 1
                if m[i] not in known:
                    st = False
                    if (j - i) % 2 and not ATOMS[m[i]].nonneg:
                        ok = False
                        break
                i = j
            if not ok:
                return None
            strict = strict or st
            if c > 0:
                pos = True
            else:
                neg = True
        if pos and neg:
            return None
        if pos:
            return 1 if strict else 0
        if neg:
            return -2 if strict else -1
        return 0

    def bounds(self):
        """interval (lo, hi) with None for unbounded."""
        lo = hi = F0
        for m, c in self.t.items():
            l, h = F1, F1
            for a in m:
                at = ATOMS[a]
                if at.lo is None or at.hi is None:
                    return None
                ps = (l * at.lo, l * at.hi, h * at.lo, h * at.hi)
                l, h = min(ps), max(ps)
            l, h = sorted((l * c, h * c))
            lo += l
            hi += h
        return lo, hi

    def isint(self):
        return all(c.denominator == 1 for c in self.t.values()) and all(ATOMS[a].isint for a in self.atoms())

    def z(self):
        if self._z is None:
            self._z = poly_z3(self.t)
        return self._z


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    m = sorted(m1 + m2)
    out = []
    prev = -1
    groups = None
    for a in m:
        at = ATOMS[a]
        if at.sort == 'ind':
            if a == prev:
                continue
            if at.group is not None:
                if groups is None:
                    groups = {}
                g = groups.get(at.group)
                if g is not None and g != a:
                    return None
                groups[at.group] = a
        out.append(a)
        prev = a
    return tuple(out)


def _rv(c):
    return z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)


def poly_z3(t):
    """z3 real term; indicator atoms become If(cond, rest, 0) so that linear stays linear."""
    if not t:
        return z3.RealVal(0)
    plain = []
    by = {}
    for m, c in (sorted(t.items()) if len(t) > 1 else t.items()):
        ind = None
        for a in m:
            if ATOMS[a].sort == 'ind':
                ind = a
                break
        if ind is None:
            plain.append((m, c))
        else:
            by.setdefault(ind, {})[tuple(x for x in m if x != ind)] = c
    terms = []
    for m, c in plain:
        z = None
        for a in m:
            z = ATOMS[a].z if z is None else z * ATOMS[a].z
        if z is None:
            z = _rv(c)
        elif c != 1:
            z = _rv(c) * z
        terms.append(z)
    for a, sub in by.items():
        terms.append(z3.If(ATOMS[a].cond, poly_z3(sub), z3.RealVal(0)))
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def poly_div(n, d):
    """exact quotient n/d as polynomials or None."""
    if d.is_const():
        return n.scale(1 / d.cval())
    if len(n.t) > 3000 or len(d.t) > len(n.t) * 50 + 50:
        return None
    if not d.atoms() <= n.atoms():
        return None

    def lead(p):
        return max(p.t, key=lambda m: (len(m), m))
    ld = lead(d)
    cd = d.t[ld]
    q = {}
    r = n
    steps = 0
    while r.t:
        steps += 1
        if steps > 400:
            return None
        lr = lead(r)
        rest = list(lr)
        for a in ld:
            if a in rest:
                rest.remove(a)
            else:
                return None
        qm = tuple(rest)
        qc = r.t[lr] / cd
        q[qm] = q.get(qm, F0) + qc
        r = r - Poly({qm: qc}) * d
        if r.t and (len(lead(r)), lead(r)) >= (len(lr), lr):
            return None
    return Poly({m: c for m, c in q.items() if c})


# ------------------------------------------------------------------ symbolic booleans
class SymB:
    __slots__ = ('z', 'ind', 'strong', '_bn', 'origin')
    weighted = False

    def __init__(self, z, ind=None, strong=None, origin=None):
        self.z = z
        self.ind = ind          # Poly that is 0/1 valued, or None
        self.strong = strong    # stronger negation (z3) for nicer counterexamples
        self.origin = origin

    def poly(self):
        if self.ind is None:
            if z3.is_not(self.z):
                a = cond_atom(self.z.arg(0), self.origin)
                self.ind = Poly.const(1) - Poly.atom(a)
            else:
                a = cond_atom(self.z, self.origin)
                self.ind = Poly.atom(a)
            if CUR is not None:
                v = CUR.decided.get(a.cond.get_id())
                if v is not None:
                    CUR.set_atom(a.id, F1 if v else F0)
        return self.ind

    def num(self):
        return Num.of_poly(self.poly(), 'i')

    def red(self):
        """bool if already decided on this path"""
        c = CUR
        if c is not None:
            return c.known(self)
        return None

    def __bool__(self):
        return CUR.decide(self)

    def __invert__(self):
        return b_not(self)

    def __and__(self, o):
        return b_and(self, o) if isb(o) else self.num().__and__(o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o) if isb(o) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return b_not(b_eq(self, o)) if isb(o) else NotImplemented

    __rxor__ = __xor__

    def logical_not(self):
        return b_not(self)

    def __eq__(self, o):
        if isb(o):
            return b_eq(self, o)
        if o is None or isinstance(o, str):
            return False
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return b_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def _a(self, o, f):
        return f(self.num(), o)

    def __add__(self, o):
        if isb(o) and not isinstance(o, bool):
            return b_or(self, o)
        return self.num() + o

    def __radd__(self, o):
        return self.num() + o

    def __mul__(self, o):
        if isb(o):
            return b_and(self, o)
        return self.num() * o

    def __rmul__(self, o):
        if isb(o):
            return b_and(self, o)
        return self.num() * o

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return (-self.num()) + o

    def __truediv__(self, o):
        return self.num() / o

    def __rtruediv__(self, o):
        return lift(o) / self.num()

    def __neg__(self):
        return -self.num()

    def __abs__(self):
        return self

    def __lt__(self, o):
        return self.num() < o

    def __le__(self, o):
        return self.num() <= o

    def __gt__(self, o):
        return self.num() > o

    def __ge__(self, o):
        return self.num() >= o

    def __pow__(self, o):
        return self.num() ** o

    def __mod__(self, o):
        return self.num() % o

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f'<B {self.z}>'

    def __format__(self, spec):
        return '<symb>'


def isb(x):
    return isinstance(x, (bool, SymB)) or type(x).__name__ in ('bool_', 'bool')


def zb(x):
    return x.z if isinstance(x, SymB) else z3.BoolVal(bool(x))


def _mk(z, ind=None):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    if ind is not None and ind.is_const():
        return bool(ind.cval())
    return SymB(z, ind)


def b_not(a):
    if not isinstance(a, SymB):
        return not a
    if a.weighted:
        return False
    return SymB(z3.Not(a.z) if not z3.is_not(a.z) else a.z.arg(0),
                None if a.ind is None else Poly.const(1) - a.ind, origin=a.origin)


def _red(a):
    if isinstance(a, SymB):
        r = a.red()
        if r is not None:
            return r
    return a


def b_and(a, b):
    a, b = _red(a), _red(b)
    if not isinstance(a, SymB):
        return b if a else False
    if not isinstance(b, SymB):
        return a if b else False
    if a.weighted or b.weighted:
        return a if a.weighted else b
    ind = None
    if a.ind is not None and b.ind is not None and len(a.ind.t) * len(b.ind.t) <= 400:
        ind = a.ind * b.ind
    return _mk(z3.And(a.z, b.z), ind)


def b_or(a, b):
    a, b = _red(a), _red(b)
    if not isinstance(a, SymB):
        return True if a else b
    if not isinstance(b, SymB):
        return True if b else a
    if a.weighted or b.weighted:
        return a if a.weighted else b
    ind = None
    if a.ind is not None and b.ind is not None and len(a.ind.t) * len(b.ind.t) <= 400:
        ind = a.ind + b.ind - a.ind * b.ind
    return _mk(z3.Or(a.z, b.z), ind)


def b_eq(a, b):
    if not isinstance(a, SymB):
        return b if a else b_not(b)
    if not isinstance(b, SymB):
        return a if b else b_not(a)
    ind = None
    if a.ind is not None and b.ind is not None and len(a.ind.t) * len(b.ind.t) <= 400:
        ab = a.ind * b.ind
        ind = Poly.const(1) - a.ind - b.ind + ab + ab
    return _mk(a.z == b.z, ind)


def b_all(xs):
    xs = [x for x in (_red(x) for x in xs)]
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if isinstance(x, SymB)]
    if not xs:
        return True
    return SymB(z3.And([x.z for x in xs])) if len(xs) > 1 else xs[0]


def b_any(xs):
    xs = [x for x in (_red(x) for x in xs)]
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if isinstance(x, SymB)]
    if not xs:
        return False
    if len(xs) == 1:
        return xs[0]
    return SymB(z3.Or([x.z for x in xs]), origin='eq' if all(x.origin == 'eq' for x in xs) else None)


# ------------------------------------------------------------------ numbers
def split_mono(x):
    """factor single atoms out of the factors of a number"""
    if all(len(p.t) == 1 and len(next(iter(p.t))) == 1 for p, e in x.f):
        return x
    fs = {}
    for p, e in x.f:
        com = None
        for m in p.t:
            if com is None:
                com = list(m)
            elif com:
                r = list(m)
                keep = []
                for a in com:
                    if a in r:
                        r.remove(a)
                        keep.append(a)
                com = keep
            if not com:
                break
        if com:
            t = {}
            for m, c in p.t.items():
                r = list(m)
                for a in com:
                    r.remove(a)
                t[tuple(r)] = c
            for a in com:
                q = Poly.atom(ATOMS[a])
                fs[q] = fs.get(q, 0) + e
            q = Poly(t)
            if not q.is_const():
                fs[q] = fs.get(q, 0) + e
        else:
            fs[p] = fs.get(p, 0) + e
    return Num(x.c, tuple((p, e) for p, e in fs.items() if e), x.kind, x.sp, x.py)


def atomise(x):
    """a fraction as coefficient times an opaque atom defined by  atom * denominator == numerator"""
    x = x.red()
    if x.sp or not any(e < 0 for p, e in x.f):
        return x
    x = split_mono(x).cancel()
    num = Poly.const(1)
    den = []
    big = []
    for p, e in sorted(x.f, key=lambda t: (len(t[0].t), t[0].key())):
        if e < 0:
            den.append((p, -e))
        else:
            for _ in range(e):
                if len(num.t) * len(p.t) <= 2000:
                    num = num * p
                else:
                    big.append(p)
    if not den:
        return x
    c = x.c
    if not num.is_const():
        k, num = num.content()
        c *= k
    else:
        c *= num.cval()
        num = Poly.const(1)
    key = ('fresh', 'frac', num.key(), tuple(p.key() for p in big), tuple((p.key(), e) for p, e in den))
    at = _by_key.get(key)
    if at is None:
        z = z3.Real(f'frac!{len(ATOMS)}')
        nz = num.z()
        for p in big:
            nz = nz * p.z()
        dz = None
        sg = num.sign()
        nn = sg in (0, 1) and not big
        for p, e in den:
            if not (p.sign() in (0, 1)) and e % 2:
                nn = False
            for _ in range(e):
                dz = p.z() if dz is None else dz * p.z()
        at = new_atom(key, z, 'real', nonneg=nn, defs=(z * dz == nz,))
        at.radicand = None
        FRACS[at.id] = Num(F1, ((num, 1),) if not num.is_const() else (), 'f') * \
            Num(F1, tuple((p, 1) for p in big) + tuple((p, -e) for p, e in den), 'f')
    return Num(c, ((Poly.atom(at), 1),), 'f', None, x.py)


FRACS = {}


def expand_fracs(x):
    """replace opaque fractions by their definitions"""
    if x.sp:
        return x
    for _ in range(6):
        hit = [a for a in x.atoms() if a in FRACS]
        if not hit:
            return x
        out = Num(x.c, (), x.kind)
        for p, e in x.f:
            if p.atoms().isdisjoint(FRACS):
                out = out * Num(F1, ((p, e),))
                continue
            tot = Num(F0)
            for m, c in p.t.items():
                t = Num(c)
                for a in m:
                    t = t * (FRACS[a].red() if a in FRACS else Num.of_poly(Poly.atom(ATOMS[a])))
                tot = tot + t
            out = out * tot ** e
        x = out
    return x


REAL_HASH = 7046029254386353131


class Num:
    __slots__ = ('c', 'f', 'kind', 'sp', 'py')

    def __init__(self, c, f=(), kind='f', sp=None, py=False):
        self.c = c          # Fraction
        self.f = f          # tuple of (Poly, exp), Poly primitive nonconstant
        self.kind = kind
        self.sp = sp        # None, 'inf', '-inf', 'nan'
        self.py = py        # a Python (not numpy) number

    # -- construction
    @staticmethod
    def of_poly(p, kind='f'):
        if p.is_const():
            return Num(p.cval(), (), kind)
        k, prim = p.content()
        return Num(k, ((prim, 1),), kind)

    def is_const(self):
        return self.sp is None and not self.f

    def is_zero(self):
        return self.sp is None and not self.f and not self.c

    def red(self):
        """apply what the path has decided about atoms"""
        if self.f and CUR is not None and CUR.assign:
            asg = CUR.assign
            keys = CUR.assign_keys
            for p, e in self.f:
                if not keys.isdisjoint(p.atoms()):
                    break
            else:
                return self
            r = Num(self.c, (), self.kind, None, self.py)
            num, den = F1, []
            fs = {}
            c = self.c
            for p, e in self.f:
                if not keys.isdisjoint(p.atoms()):
                    p = p.subs(asg)
                    if not p.t:
                        if e > 0:
                            return Num(F0, (), self.kind, None, self.py)
                        raise Unsupported('denominator vanished')
                    if p.is_const():
                        c *= p.cval() ** e
                        continue
                    k, p = p.content()
                    c *= k ** e
                fs[p] = fs.get(p, 0) + e
            return Num(c, tuple((p, e) for p, e in fs.items() if e), self.kind, None, self.py)
        return self

    # -- poly views
    def poly(self):
        """as a polynomial or None when there is a denominator"""
        p = Poly.const(self.c)
        for q, e in self.f:
            if e < 0:
                return None
            for _ in range(e):
                p = p * q
        return p

    def cv(self):
        return self.c

    def atoms(self):
        s = set()
        for p, e in self.f:
            s |= p.atoms()
        return s

    # -- arithmetic
    def _kind2(self, o):
        return 'i' if self.kind == 'i' and o.kind == 'i' else 'f'

    def __neg__(self):
        if self.sp:
            return Num(F0, (), 'f', {'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}[self.sp], self.py)
        return Num(-self.c, self.f, self.kind, None, self.py)

    def __pos__(self):
        return self

    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        py = self.py and o.py
        kind = self._kind2(o)
        if self.sp or o.sp:
            a, b = self.sp, o.sp
            if a is None:
                s = b
            elif b is None:
                s = a
            else:
                s = a if a == b else 'nan'
            return Num(F0, (), 'f', s, py)
        if not self.f and not o.f:
            return Num(self.c + o.c, (), kind, None, py)
        if not self.c:
            return Num(o.c, o.f, kind, None, py)
        if not o.c:
            return Num(self.c, self.f, kind, None, py)
        a, b = self.red(), o.red()
        if a.f == b.f:
            c = a.c + b.c
            return Num(c, a.f if c else (), kind, None, py)
        if FRACLIM is not None and (any(e < 0 for p, e in a.f) or any(e < 0 for p, e in b.f)):
            da = {p: e for p, e in a.f if e < 0}
            db = {p: e for p, e in b.f if e < 0}
            if da != db:
                est = 1
                for src, oth in ((a, db), (b, da)):
                    n = 1
                    for p, e in src.f:
                        if e > 0:
                            n *= len(p.t) ** e
                    for p, e in oth.items():
                        n *= len(p.t) ** -e
                    est = max(est, n)
                if est > FRACLIM:
                    a2, b2 = atomise(a), atomise(b)
                    pa, pb = a2.poly(), b2.poly()
                    r = Num.of_poly(pa + pb, kind)
                    return Num(r.c, r.f, kind, None, py)
        fa, fb = dict(a.f), dict(b.f)
        g = {}
        for p in set(fa) | set(fb):
            m = min(fa.get(p, 0), fb.get(p, 0))
            if m:
                g[p] = m
        pa, pb = Poly.const(a.c), Poly.const(b.c)
        for p, e in fa.items():
            for _ in range(e - g.get(p, 0)):
                pa = pa * p
        for p, e in fb.items():
            for _ in range(e - g.get(p, 0)):
                pb = pb * p
        # factors in g missing from one side with g negative
        for p, e in g.items():
            if p not in fa:
                for _ in range(-e):
                    pa = pa * p
            if p not in fb:
                for _ in range(-e):
                    pb = pb * p
        s = pa + pb
        if not s.t:
            return Num(F0, (), kind, None, py)
        if s.is_const():
            return Num(s.cval(), tuple((p, e) for p, e in g.items() if e), kind, None, py)
        c, s = s.content()
        # cancel against denominators
        for p in [p for p, e in g.items() if e < 0]:
            while g.get(p, 0) < 0:
                q = poly_div(s, p)
                if q is None:
                    break
                g[p] += 1
                s = q
                if s.is_const():
                    break
            if s.is_const():
                break
        if s.is_const():
            c *= s.cval()
        else:
            k, s = s.content()
            c *= k
            g[s] = g.get(s, 0) + 1
        return Num(c, tuple((p, e) for p, e in g.items() if e), kind, None, py)

    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        py = self.py and o.py
        kind = self._kind2(o)
        if self.sp or o.sp:
            if self.sp == 'nan' or o.sp == 'nan':
                return Num(F0, (), 'f', 'nan', py)
            s1 = self._sgn()
            s2 = o._sgn()
            if s1 == 0 or s2 == 0:
                return Num(F0, (), 'f', 'nan', py)
            return Num(F0, (), 'f', 'inf' if s1 * s2 > 0 else '-inf', py)
        if not self.c or not o.c:
            return Num(F0, (), kind, None, py)
        if not o.f:
            return Num(self.c * o.c, self.f, kind, None, py)
        if not self.f:
            return Num(self.c * o.c, o.f, kind, None, py)
        fs = dict(self.f)
        c = self.c * o.c
        for p, e in o.f:
            v = fs.get(p, 0) + e
            if v:
                fs[p] = v
            else:
                fs.pop(p, None)
        return Num(c, tuple(fs.items()), kind, None, py)._norm()

    __rmul__ = __mul__

    def _norm(self):
        """idempotence of indicators, squares of square roots"""
        f = None
        extra = None
        for p, e in self.f:
            if len(p.t) == 1 and (e > 1):
                m = next(iter(p.t))
                if len(m) == 1:
                    at = ATOMS[m[0]]
                    if at.sort == 'ind':
                        f = f or dict(self.f)
                        f[p] = 1
            if len(p.t) == 1 and abs(e) > 1:
                m = next(iter(p.t))
                if len(m) == 1 and ATOMS[m[0]].radicand is not None:
                    f = f or dict(self.f)
                    h = int(e / 2)
                    f[p] = e - 2 * h
                    if not f[p]:
                        del f[p]
                    r = ATOMS[m[0]].radicand
                    extra = r ** h if extra is None else extra * (r ** h)
        if f is None:
            return self
        n = Num(self.c, tuple(f.items()), self.kind, None, self.py)
        return n if extra is None else n * extra

    def _sgn(self):
        """sign -1/0/1 on this path (forks if undetermined)"""
        if self.sp:
            return {'inf': 1, '-inf': -1}[self.sp]
        if not self.f:
            return (self.c > 0) - (self.c < 0)
        if bool(self == 0):
            return 0
        return 1 if bool(self > 0) else -1

    def inv(self):
        return Num(1 / self.c, tuple((p, -e) for p, e in self.f), 'f', None, self.py)

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        py = self.py and o.py
        a = self
        if o.sp:
            if o.sp == 'nan' or a.sp:
                return Num(F0, (), 'f', 'nan', py)
            return Num(F0, (), 'f', None, py)
        o = o.red()
        o = split_eq(o)
        if o.f:
            # is it zero on this path?
            if CUR is not None and not CUR.nonzero(o):
                o = Num(F0, (), o.kind)
        if not o.f and not o.c:
            if py:
                raise ZeroDivisionError('division by zero')
            if a.sp == 'nan':
                return Num(F0, (), 'f', 'nan')
            s = a._sgn()
            return Num(F0, (), 'f', 'nan' if s == 0 else ('inf' if s > 0 else '-inf'))
        o = o.red()
        if a.sp:
            if a.sp == 'nan':
                return a
            return a if o._sgn() > 0 else -a
        a = a.red()
        if FPMODE:
            from . import fp
            r = fp.quotient(a, o)
            if r is not None:
                return r
        if not a.c:
            return Num(F0, (), 'f', None, py)
        r = a * split_mono(o).inv()
        r = Num(r.c, r.f, 'f', r.sp, py)
        return r.cancel()

    def cancel(self):
        """try to cancel numerator factors against denominator factors"""
        neg = [p for p, e in self.f if e < 0]
        if not neg:
            return self
        fs = dict(self.f)
        c = self.c
        changed = False
        for d in neg:
            for p in [p for p, e in fs.items() if e > 0 and len(p.t) > 1]:
                while fs.get(p, 0) > 0 and fs.get(d, 0) < 0:
                    q = poly_div(p, d)
                    if q is None:
                        break
                    changed = True
                    fs[p] -= 1
                    if not fs[p]:
                        del fs[p]
                    fs[d] += 1
                    if not fs[d]:
                        del fs[d]
                    if q.is_const():
                        c *= q.cval()
                    else:
                        k, q = q.content()
                        c *= k
                        fs[q] = fs.get(q, 0) + 1
                        p = q
        return Num(c, tuple((p, e) for p, e in fs.items() if e), self.kind, None, self.py) if changed else self

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return o / self

    def __pow__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if o.is_const() and o.c == Fraction(1, 2):
            return self.sqrt()
        if not o.is_const() or o.c.denominator != 1:
            raise Unsupported('power')
        n = int(o.c)
        if n == 0:
            return Num(F1, (), self.kind, None, self.py)
        if n < 0:
            return Num(F1, (), 'f', None, self.py) / (self ** -n)
        if self.sp:
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        return Num(self.c ** n, tuple((p, e * n) for p, e in self.f), self._kind2(o), None, self.py)._norm()

    def __rpow__(self, o):
        o = lift(o)
        return o ** self

    def __floordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if self.is_const() and o.is_const() and o.c:
            return Num(Fraction(self.c // o.c), (), self._kind2(o), None, self.py and o.py)
        q = self / o
        r = q.floor()
        return Num(r.c, r.f, self._kind2(o), r.sp, self.py and o.py)

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        q = self // o
        r = self - q * o
        r.kind = self._kind2(o)
        return r

    def __rmod__(self, o):
        return lift(o) % self

    def __and__(self, o):
        if isb(o):
            return b_and(self != 0, o)
        return NotImplemented

    def floor(self):
        if self.sp:
            return self
        a = self.red()
        if not a.f:
            import math
            return Num(Fraction(math.floor(a.c)), (), 'f', None, self.py)
        p = a.poly()
        if p is not None and p.isint():
            return a
        z = a.z()
        fv = z3.Int(f'floor!{z.get_id()}')
        r = z3.ToReal(fv)
        at = new_atom(('floor', z.get_id()), r, 'real', isint=True, defs=(r <= z, z < r + 1))
        _keep.append(z)
        return Num.of_poly(Poly.atom(at), 'f')

    def trunc(self):
        if self.sp:
            return self
        a = self.red()
        if a.kind == 'i':
            return a
        if not a.f:
            import math
            return Num(Fraction(math.trunc(a.c)), (), 'i')
        p = a.poly()
        if p is not None and p.isint():
            return Num(a.c, a.f, 'i')
        if bool(a >= 0):
            r = a.floor()
        else:
            r = -((-a).floor())
        return Num(r.c, r.f, 'i')

    __trunc__ = trunc

    def ceil(self):
        return -((-self).floor())

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.ceil()

    def rint(self):
        # half to even
        h = self + Fraction(1, 2)
        f = h.floor()
        if self.sp is None and f == h and f % 2 == 1:
            return f - 1
        return f

    def round(self, decimals=0):
        if self.kind != 'f' or self.sp is not None:
            return self
        sc = 10 ** decimals
        return (self * sc).rint() / sc

    def __round__(self, nd=None):
        if self.is_const():
            return Num(Fraction(round(self.c) if nd is None else round(self.c, nd)), (), 'i' if nd is None else 'f')
        r = self.round(nd or 0)
        return r.trunc() if nd is None else r

    def __abs__(self):
        if self.sp:
            return self if self.sp == 'nan' else Num(F0, (), 'f', 'inf')
        a = self.red()
        if not a.f:
            return Num(abs(a.c), (), a.kind, None, a.py)
        if len(a.f) == 1 and a.f[0][1] == 1 and len(a.f[0][0].t) == 1 and all(ATOMS[x].nonneg for x in a.f[0][0].atoms()):
            return Num(abs(a.c), a.f, a.kind, None, a.py)
        s = a < 0
        if s is False:
            return a
        if s is True:
            return -a
        sg = CUR.sign_of(a)
        if sg is not None:
            return a if sg >= 0 else -a
        return ite(s, -a, a)

    def logical_not(self):
        return self == 0

    # unary functions called by numpy on object arrays
    def sqrt(self):
        return num_sqrt(self)

    def log(self):
        return num_log(self)

    def exp(self):
        raise Unsupported('exp')

    def isnan(self):
        return self.sp == 'nan'

    def isinf(self):
        return self.sp in ('inf', '-inf')

    def isfinite(self):
        return self.sp is None

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Num(F0, (), self.kind)

    def item(self):
        return Num(self.c, self.f, self.kind, self.sp, True)

    def astype(self, t):
        return cast(self, t)

    @property
    def dtype(self):
        return float if self.kind == 'f' else int

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    # -- comparisons
    def _cmp(self, o, op):
        o = lift(o)
        if o is NotImplemented:
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        if self.sp or o.sp:
            if self.sp == 'nan' or o.sp == 'nan':
                return op == '!='
            va = {'inf': 2, '-inf': -2, None: 0}[self.sp]
            vb = {'inf': 2, '-inf': -2, None: 0}[o.sp]
            return {'==': va == vb, '!=': va != vb, '<': va < vb, '<=': va <= vb, '>': va > vb, '>=': va >= vb}[op]
        if not self.f and not o.f:
            a, b = self.c, o.c
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        d = (self - o).red()
        return cmp0(d, op)

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        if self.sp:
            return hash(float(self.sp))
        a = self.red()
        if a.f:
            if self.kind == 'f':
                p = a.poly()
                if p is None or not p.isint():
                    return REAL_HASH        # told apart by comparison
            return hash(a.concretize())
        return hash(a.c) if a.c.denominator == 1 else REAL_HASH

    def concretize(self):
        """fork over the feasible integer values of this number; returns the value on this path"""
        a = self.red()
        if not a.f:
            return a.c
        if CUR is None:
            raise Unsupported('concretize outside a path')
        return CUR.enum_value(a)

    def __index__(self):
        if self.sp or self.kind == 'f':
            if self.is_const() and self.c.denominator == 1 and False:
                return int(self.c)
            raise TypeError("'float' object cannot be interpreted as an integer")
        v = self.concretize()
        return int(v)

    def __int__(self):
        v = self.trunc().concretize()
        return int(v)

    def __float__(self):
        if self.sp:
            return float(self.sp)
        a = self.red()
        if not a.f:
            return float(a.c)
        if CUR is not None:
            CUR.incomplete('float() of a symbolic value')
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        return complex(float(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def z(self):
        """z3 Real term of the value (denominators known non-zero on the path)"""
        if self.sp:
            raise Unsupported('z3 of ' + self.sp)
        num = _rv(self.c)
        den = None
        for p, e in self.f:
            for _ in range(abs(e)):
                if e > 0:
                    num = p.z() if (z3.is_rational_value(num) and num.as_fraction() == 1) else num * p.z()
                else:
                    den = p.z() if den is None else den * p.z()
        return num if den is None else num / den

    def __repr__(self):
        if self.sp:
            return self.sp
        if not self.f:
            return str(self.c) if self.kind == 'i' else f'{float(self.c):g}'
        return token(self)

    def __str__(self):
        if self.is_const() and self.c.denominator == 1 and self.kind == 'i':
            return str(int(self.c))
        if self.f and self.kind == 'i':
            return str(int(self.concretize()))
        return self.__repr__()

    def __format__(self, spec):
        if self.sp:
            return self.sp
        if not self.f:
            try:
                return format(int(self.c) if self.kind == 'i' else float(self.c), spec)
            except Exception:
                return str(self.c)
        return token(self)


TOKENS = []


def token(v):
    """a character that stands for a symbolic number in text"""
    for i, t in enumerate(TOKENS):
        if t is v:
            return chr(0xE000 + i)
    TOKENS.append(v)
    if len(TOKENS) > 6000:
        raise Unsupported('too many numbers in text')
    return chr(0xE000 + len(TOKENS) - 1)


_keep = []


def lift(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, SymB):
        return x.num()
    if isinstance(x, bool):
        return Num(Fraction(int(x)), (), 'i', None, True)
    if isinstance(x, int):
        return Num(Fraction(x), (), 'i', None, True)
    if isinstance(x, Fraction):
        return Num(x, (), 'f', None, True)
    if isinstance(x, float):
        if x != x:
            return Num(F0, (), 'f', 'nan', True)
        if x in (float('inf'), float('-inf')):
            return Num(F0, (), 'f', 'inf' if x > 0 else '-inf', True)
        return Num(Fraction(repr(float(x))), (), 'f', None, True)
    tn = type(x).__module__
    if tn == 'numpy':
        import numpy as np
        if isinstance(x, np.bool_):
            return Num(Fraction(int(x)), (), 'i')
        if isinstance(x, np.integer):
            return Num(Fraction(int(x)), (), 'i')
        if isinstance(x, np.floating):
            r = lift(float(x))
            r.py = False
            return r
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return lift(x.item())
    return NotImplemented


INF = Num(F0, (), 'f', 'inf', True)
NAN = Num(F0, (), 'f', 'nan', True)


def split_eq(o, every=False):
    """case split on conditions of the form 'x == 0' that appear inside a divisor / log argument"""
    if CUR is None or not o.f:
        return o
    for _ in range(8):
        at = [a for a in sorted(o.atoms()) if ATOMS[a].origin == 'eq' or (every and ATOMS[a].sort == 'ind')]
        if not at:
            return o
        a = ATOMS[at[0]]
        if a.origin != 'eq':
            CUR.decide(SymB(a.cond, Poly.atom(a)))
        elif z3.is_or(a.cond):
            v = False
            for ch in a.cond.children():
                if CUR.decide(SymB(ch, None, origin='eq')):
                    v = True
                    break
            CUR._take(SymB(a.cond, Poly.atom(a), origin='eq'), v, implied=True)
        else:
            CUR.decide(SymB(a.cond, Poly.atom(a), origin='eq'))
        o = o.red()
    return o


def cmp0(d, op):
    """d op 0 as bool / SymB"""
    if not d.f:
        return {'==': d.c == 0, '!=': d.c != 0, '<': d.c < 0, '<=': d.c <= 0, '>': d.c > 0, '>=': d.c >= 0}[op]
    if op == '!=':
        return b_not(cmp0(d, '=='))
    if op == '<=':
        return b_not(cmp0(d, '>'))
    if op == '>=':
        return b_not(cmp0(d, '<'))
    if op == '==':
        outs = []
        for p, e in d.f:
            if e > 0:
                s = p.sign()
                if s in (1, -2):
                    continue
                outs.append(poly_eq0(p))
        return b_any(outs)
    sg = 1 if d.c > 0 else -1
    terms = []
    for p, e in d.f:
        if e % 2 == 0:
            if e > 0:
                terms.append((p, 2))
            continue
        if e < 0 and CUR is not None:
            s = p.sign()
            if s in (1, 0):      # non-zero denominators: weakly positive means positive
                continue
            if s in (-1, -2):
                sg = -sg
                continue
            s = CUR.poly_sign(p)
            if s is not None:
                sg *= s
                continue
        else:
            s = p.sign()
            if s == 1:
                continue
            if s == -2:
                sg = -sg
                continue
        terms.append((p, 1))
    if (op == '<') == (sg > 0):
        want = '<'
    else:
        want = '>'
    if not terms:
        return want == '>'
    if len(terms) == 1 and terms[0][1] == 1:
        return poly_lt0(terms[0][0]) if want == '<' else poly_gt0(terms[0][0])
    z = None
    for p, e in terms:
        t = p.z()
        for _ in range(e):
            z = t if z is None else z * t
    return SymB(z < 0 if want == '<' else z > 0)


def poly_single_fd(p):
    """if p (0/1-valued?) is over indicator atoms only and small, enumerate its value set"""
    return None


def _ind_if_01(p):
    """p == 0 for a polynomial over one FD group / indicator: canonical indicator"""
    return None


def surd_sign(p):
    """exact sign of a sum of rational multiples of square roots of primes; None for other polynomials"""
    g = {}
    for m, c in p.t.items():
        odd = set()
        for a in m:
            q = ATOMS[a].surd
            if q is None:
                return None
            if a in odd:
                odd.discard(a)
                c = c * q
            else:
                odd.add(a)
        k = frozenset(odd)
        g[k] = g.get(k, 0) + c
    # square roots of different square-free numbers are linearly independent
    g = {k: c for k, c in g.items() if c}
    if not g or len(g) == 1:
        return 0 if not g else (1 if next(iter(g.values())) > 0 else -1)
    if all(c > 0 for c in g.values()):
        return 1
    if all(c < 0 for c in g.values()):
        return -1
    bits = 64
    while True:
        lo = F0
        err = F0
        for k, c in g.items():
            n = 1
            for a in k:
                n *= ATOMS[a].surd
            r = isqrt(n << (2 * bits))
            lo += c * r
            err += abs(c)
        if lo > err:
            return 1
        if lo < -err:
            return -1
        bits *= 2


def poly_eq0(p):
    s = surd_sign(p)
    if s is not None:
        return s == 0
    if p.sign() in (1, -2):
        return False
    b = p.bounds() if len(p.t) <= 40 else None
    if b is not None:
        if b[0] > 0 or b[1] < 0:
            return False
        if b[0] == b[1] == 0:
            return True
    fd = fd_values(p)
    if fd is not None:
        ind = Poly({})
        zs = []
        for vals, q in fd:
            if q == 0:
                ind = ind + vals
        if ind.is_const():
            return bool(ind.cval())
        return SymB(poly_bool_z(ind), ind, origin=None)
    if len(p.t) == 1:
        m = next(iter(p.t))
        return b_any([SymB(ATOMS[a].z == 0, None, origin='eq') if ATOMS[a].sort != 'ind'
                      else SymB(z3.Not(ATOMS[a].cond), Poly.const(1) - Poly.atom(ATOMS[a])) for a in set(m)])
    return SymB(_zeq(p), None, origin='eq')


def _zeq(p):
    # split constant to the right side for readability / linear solver
    return p.z() == 0


def poly_bool_z(ind):
    """z3 Bool of a 0/1 valued polynomial over indicators"""
    if len(ind.t) == 1:
        m, c = next(iter(ind.t.items()))
        if c == 1:
            return z3.And([ATOMS[a].cond for a in m]) if len(m) > 1 else ATOMS[m[0]].cond
    if all(c == 1 for c in ind.t.values()) and () not in ind.t:
        return z3.Or([z3.And([ATOMS[a].cond for a in m]) if len(m) > 1 else ATOMS[m[0]].cond for m in ind.t])
    one_minus = Poly.const(1) - ind
    if all(c == 1 for c in one_minus.t.values()) and () not in one_minus.t and one_minus.t:
        return z3.Not(poly_bool_z(one_minus))
    return ind.z() > _rv(Fraction(1, 2))


def fd_values(p):
    """p over at most two FD groups (and no other atoms): list of (indicator Poly, value); else None"""
    groups = {}
    for a in p.atoms():
        at = ATOMS[a]
        if at.sort != 'ind':
            return None
        g = at.group if at.group is not None else ('c', a)
        groups.setdefault(g, []).append(a)
    if not groups or len(groups) > 2:
        return None
    full = []
    for g, _ in groups.items():
        if isinstance(g, tuple) and g[0] == 'c':
            a = ATOMS[g[1]]
            full.append([(Poly.atom(a), {a.id: F1}), (Poly.const(1) - Poly.atom(a), {a.id: F0})])
        else:
            ats = FDGROUPS[g]
            cases = []
            rest = Poly.const(1)
            zero = {a.id: F0 for a in ats}
            for a in ats:
                d = dict(zero)
                d[a.id] = F1
                cases.append((Poly.atom(a), d))
                rest = rest - Poly.atom(a)
            cases.append((rest, zero))
            full.append(cases)
    out = []
    if len(full) == 1:
        for ind, asg in full[0]:
            out.append((ind, p.subs(asg).cval()))
    else:
        if len(full[0]) * len(full[1]) > 64:
            return None
        for i1, a1 in full[0]:
            for i2, a2 in full[1]:
                d = dict(a1)
                d.update(a2)
                out.append((i1 * i2, p.subs(d).cval()))
    return out


FDGROUPS = {}


def _fd_cmp(p, pred):
    fd = fd_values(p)
    if fd is None:
        return None
    ind = Poly({})
    for i, v in fd:
        if pred(v):
            ind = ind + i
    if ind.is_const():
        return bool(ind.cval())
    return SymB(poly_bool_z(ind), ind)


def poly_lt0(p):
    r = _fd_cmp(p, lambda v: v < 0)
    if r is not None:
        return r
    b = p.bounds() if len(p.t) <= 40 else None
    if b is not None:
        if b[0] >= 0:
            return False
        if b[1] < 0:
            return True
    sg = p.sign()
    if sg in (0, 1):
        return False
    if sg == -2:
        return True
    return SymB(_lin_cmp(p, '<'))


def poly_gt0(p):
    r = _fd_cmp(p, lambda v: v > 0)
    if r is not None:
        return r
    b = p.bounds() if len(p.t) <= 40 else None
    if b is not None:
        if b[0] > 0:
            return True
        if b[1] <= 0:
            return False
    sg = p.sign()
    if sg in (-1, -2):
        return False
    if sg == 1:
        return True
    return SymB(_lin_cmp(p, '>'))


def _lin_cmp(p, op):
    """canonical z3 comparison: a - b < 0 and b - a > 0 give the same z3 term"""
    c0 = p.cval()
    q = Poly({m: c for m, c in p.t.items() if m != ()})
    lead = max(q.t)
    k = q.t[lead]
    q2 = q.scale(1 / k)
    rhs = -c0 / k
    if k < 0:
        op = '>' if op == '<' else '<'
    # normalise to strict '<' or its complement 'Not(<=)'
    if op == '<':
        return q2.z() < _rv(rhs)
    return q2.z() > _rv(rhs)


# ------------------------------------------------------------------ functions
def ite(c, a, b):
    c = _red(c)
    if not isinstance(c, SymB):
        return a if c else b
    if isb(a) and isb(b):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if isinstance(a, SymB):
        a = a.num()
    if isinstance(b, SymB):
        b = b.num()
    la, lb = lift(a), lift(b)
    if la is NotImplemented or lb is NotImplemented:
        if a is b or (type(a) is type(b) and isinstance(a, str) and a == b):
            return a
        return a if bool(c) else b
    if la.sp or lb.sp:
        if la.sp == lb.sp:
            return la
        return la if bool(c) else lb
    d = (la - lb)
    if d.is_zero():
        return lb
    kind = la._kind2(lb)
    if d.is_const() and lb.poly() is not None:
        r = lb + Num(d.c, (), d.kind) * c.num()
        return Num(r.c, r.f, kind, None, False)
    pa, pb = la.poly(), lb.poly()
    if pa is not None and pb is not None and len(pa.t) + len(pb.t) <= 8:
        r = Num.of_poly(pb + c.poly() * (pa - pb), kind)
        return r
    z = z3.If(c.z, la.z(), lb.z())
    _keep.append(z)
    nn = (pa is not None and pa.sign() in (0, 1)) and (pb is not None and pb.sign() in (0, 1))
    isint = pa is not None and pb is not None and pa.isint() and pb.isint()
    at = new_atom(('ite', z.get_id()), z, 'real', nonneg=nn, isint=isint)
    return Num.of_poly(Poly.atom(at), kind)


def s_min(a, b):
    a, b = lift(a), lift(b)
    if a.sp == 'nan' or b.sp == 'nan':
        return NAN
    return ite(b < a, b, a)


def s_max(a, b):
    a, b = lift(a), lift(b)
    if a.sp == 'nan' or b.sp == 'nan':
        return NAN
    return ite(b > a, b, a)


def _isqrt(c):
    from math import isqrt
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def num_sqrt(x):
    x = lift(x)
    if x.sp:
        return NAN if x.sp != 'inf' else x
    x = split_eq(x.red())
    if x.is_const():
        if x.c < 0:
            return NAN
        r = _isqrt(x.c)
        if r is not None:
            return Num(r)
        return _sqrt_const(x.c)
    # even powers out
    neg = cmp0(x, '<')
    if neg is not False and bool(neg):
        return NAN
    out = Num(F1)
    rest_c = x.c
    rest = []
    ok_split = x.c > 0
    if ok_split:
        for p, e in x.f:
            if e % 2 and not (p.sign() in (0, 1)):
                ok_split = False
    if not ok_split:
        if all(e % 2 == 0 for p, e in x.f) and x.c > 0:
            r = Num(F1, tuple((p, e // 2) for p, e in x.f))
            return abs(r) * num_sqrt(Num(x.c))
        return _sqrt_atom(x)
    r = _isqrt(x.c)
    out = Num(r) if r is not None else _sqrt_const(x.c)
    for p, e in x.f:
        if e % 2 == 0:
            out = out * abs(Num(F1, ((p, e // 2),)))
        else:
            s = _sqrt_atom(Num(F1, ((p, 1),)))
            out = out * (s ** abs(e) if e > 0 else Num(F1) / (s ** abs(e)))
    return out


def _sqrt_const(c):
    """root of a positive rational, from the roots of primes"""
    n = c.numerator * c.denominator
    if n > 10 ** 10:
        return _sqrt_atom(Num(c))
    out = Num(Fraction(1, c.denominator))
    for p, e in _primes(n).items():
        out = out * Num(Fraction(p) ** (e // 2))
        if e % 2:
            s = _sqrt_atom(Num(Fraction(p)))
            ATOMS[next(iter(s.f[0][0].t))[0]].surd = p
            out = out * s
    return out


def _sqrt_atom(x):
    z = x.z()
    _keep.append(z)
    s = z3.Real(f'sqrt!{z.get_id()}')
    at = new_atom(('sqrt', z.get_id()), s, 'real', nonneg=True, defs=(s >= 0, s * s == z), radicand=x)
    if x.is_const():
        at.defs = (s > 0, s * s == z)
    return Num.of_poly(Poly.atom(at))


import os
SLOW = float(os.environ.get('SX_SLOW', '0') or 0)
UF = {}
FRACLIM = None


def uf(name, *args, lo=None, hi=None, defs=None, nonneg=False):
    """uninterpreted real function of numbers"""
    zs = []
    for a in args:
        a = lift(a)
        if a.sp:
            raise Unsupported(f'{name} of {a.sp}')
        a = a.red()
        if any(e < 0 for p, e in a.f) and sum(len(p.t) * abs(e) for p, e in a.f) > 6:
            a = atomise(a)
        zs.append(z3.simplify(a.z(), som=True))
    key = (name, len(zs))
    if key not in UF:
        UF[key] = z3.Function(name, *([z3.RealSort()] * (len(zs) + 1)))
    t = UF[key](*zs)
    _keep.append(t)
    d = list(defs(t) if defs else ())
    if lo is not None:
        d.append(t >= _rv(Fraction(lo)))
    if hi is not None:
        d.append(t <= _rv(Fraction(hi)))
    at = new_atom(('uf', t.get_id()), t, 'real', nonneg=nonneg or (lo is not None and lo >= 0), defs=d)
    return Num.of_poly(Poly.atom(at))


def _primes(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def num_log(x):
    x = lift(x)
    if x.sp:
        return x if x.sp in ('nan', 'inf') else NAN
    x = split_eq(x.red(), True)
    if x.is_const():
        if x.c == 0:
            return Num(F0, (), 'f', '-inf')
        if x.c < 0:
            return NAN
    else:
        if not bool(x > 0):
            if bool(x == 0):
                return Num(F0, (), 'f', '-inf')
            return NAN
        x = split_mono(x.red()).cancel()
        try:
            if any(e < 0 for p, e in x.f) and (x - 1).is_zero():
                return Num(F0)
        except Unsupported:
            pass
    out = Num(F0)
    for p, e in _primes(x.c.numerator if x.c > 0 else -x.c.numerator).items():
        out = out + e * uf('LOG', Fraction(p))
    for p, e in _primes(x.c.denominator).items():
        out = out - e * uf('LOG', Fraction(p))
    sg = 1 if x.c > 0 else -1
    for p, e in x.f:
        q = p
        s = p.sign()
        if s not in (0, 1):
            s = CUR.poly_sign(p)
            if s is None:
                # keep the log of the whole thing opaque
                return uf('LOG', x)
            if s < 0:
                q = -p
        out = out + e * uf('LOG', Num.of_poly(q))
    return out


def cast(x, t):
    name = t if isinstance(t, str) else getattr(t, '__name__', str(t))
    if x is None or isinstance(x, str):
        return x
    if name.startswith('int') or name in ('i', 'i8', 'intp', '<i8'):
        n = lift(x)
        if n.sp:
            raise Unsupported('int of ' + n.sp)
        return n.trunc()
    if name.startswith('float') or name in ('f', 'd', 'f8'):
        n = lift(x)
        return Num(n.c, n.f, 'f', n.sp)
    if name.startswith('bool'):
        if isb(x):
            return x
        return lift(x) != 0
    return x


# ------------------------------------------------------------------ exploration of one path
CUR = None


def set_cur(c):
    global CUR
    CUR = c


_NL = {}


def nonlinear(z):
    """does the term multiply or divide unknowns"""
    i = z.get_id()
    r = _NL.get(i)
    if r is not None:
        return r[0]
    r = False
    if z3.is_app(z):
        if z3.is_mul(z):
            r = sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in z.children()) > 1
        elif z3.is_div(z):
            r = not z3.is_rational_value(z.arg(1))
        elif z.decl().kind() == z3.Z3_OP_POWER:
            r = True
        if not r:
            for c in z.children():
                if nonlinear(c):
                    r = True
                    break
    _NL[i] = (r, z)
    return r


class Dual:
    """z3 solver with a fast first pass that treats products of unknowns as opaque"""

    def __init__(self):
        self.s = z3.Solver()
        self.lin = None
        self.dirty = False
        self.opts = {}

    def set(self, k, v):
        self.opts[k] = v
        self.s.set(k, v)
        if self.lin is not None:
            self.lin.set(k, v)

    def add(self, *zs):
        for z in zs:
            self.s.add(z)
            if self.lin is not None:
                self.lin.add(z)
            if not self.dirty and nonlinear(z):
                self.dirty = True

    def _mklin(self):
        self.lin = z3.Solver()
        for k, v in self.opts.items():
            self.lin.set(k, v)
        self.lin.set('smt.arith.nl', False)
        for z in self.s.assertions():
            self.lin.add(z)

    def check(self, *a):
        if not self.dirty:
            if not any(nonlinear(z) for z in a):
                return self.s.check(*a)
        if self.lin is None:
            self._mklin()
        self.lin.set('timeout', min(self.opts.get('timeout', 8000), 4000))
        if self.lin.check(*a) == z3.unsat:
            return z3.unsat
        return self.s.check(*a)

    def quick_unsat(self, *a):
        if self.lin is None:
            self._mklin()
        self.lin.set('timeout', 2000)
        return self.lin.check(*a) == z3.unsat

    def model(self):
        return self.s.model()

    def push(self):
        self.s.push()
        if self.lin is None:
            self._mklin()
        self.lin.push()

    def pop(self):
        self.s.pop()
        self.lin.pop()

    def assertions(self):
        return self.s.assertions()

    def to_smt2(self):
        return self.s.to_smt2()


class Path:
    """One execution of a harness following a prefix of decisions."""

    def __init__(self, prefix, stats, timeout_ms=10000, seed=1):
        self.prefix = prefix
        self.pos = 0
        self.trace = []            # decisions taken
        self.alts = []             # alternative prefixes discovered
        self.solver = Dual()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', seed)
        self.assign = {}
        self.assign_keys = set()
        self.decided = {}          # z3 ast id -> bool
        self.model = None
        self.pc = []
        self.stats = stats
        self.defs_added = set()
        self.obligations = []
        self.inputs = {}           # name -> description
        self.notes = []
        self.deadline = None
        self.nonzero_cache = {}
        self.sign_cache = {}
        self.posat = {0}

    # -- constraints
    def add(self, z):
        """assume a z3 constraint"""
        self._defs_for(z)
        self.solver.add(z)
        self.pc.append(z)
        self.model = None

    def _defs_for(self, z):
        # add definitions of defined atoms (sqrt, floor, uf bounds) occurring in z
        todo = [z]
        seen = self._seen if hasattr(self, '_seen') else None
        if seen is None:
            seen = self._seen = set()
        while todo:
            t = todo.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            _keep.append(t)         # ids are reused once a term is gone
            if z3.is_app(t):
                for key in (('uf', i),):
                    a = _by_key.get(key)
                    if a is not None:
                        self._add_defs(a)
                if t.num_args() == 0:
                    n = t.decl().name()
                    a = _DEFNAMES.get(n)
                    if a is not None:
                        self._add_defs(a)
                todo.extend(t.children())

    def _add_defs(self, a):
        if a.id in self.defs_added:
            return
        self.defs_added.add(a.id)
        for d in a.defs:
            self._defs_for(d)
            self.solver.add(d)
            self.pc.append(d)
            self.model = None

    def check(self, *assumptions):
        self.stats['queries'] += 1
        t = time.time()
        if FPMODE:
            from . import fp
            r = fp.check(self, assumptions)
        else:
            r = self.solver.check(*assumptions)
        self.stats['solver_s'] += time.time() - t
        if SLOW and time.time() - t > SLOW:
            import traceback
            sys.stderr.write(f'--- slow query {time.time() - t:.1f}s {r} pos={self.pos} asm={[str(a)[:300] for a in assumptions]}\n')
            sys.stderr.write(''.join(f'   {f.filename.split("/")[-1]}:{f.lineno} {f.name}\n' for f in traceback.extract_stack()[-14:-1]))
            if SLOW < 0.5:
                sys.stderr.write(self.solver.to_smt2())
        return r

    def get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.sat:
                self.model = self.fpmodel if FPMODE else self.solver.model()
            elif r == z3.unsat:
                raise Infeasible()
            else:
                self.stats['unknown'] += 1
                raise Infeasible()
        return self.model

    def known(self, b):
        if b.ind is not None and not self.assign_keys.isdisjoint(b.ind.atoms()):
            p = b.ind.subs(self.assign)
            if p.is_const():
                return bool(p.cval())
        v = self.decided.get(b.z.get_id())
        if v is not None:
            return v
        if z3.is_not(b.z):
            v = self.decided.get(b.z.arg(0).get_id())
            if v is not None:
                return not v
        return None

    def decide(self, b):
        """truth of a symbolic condition on this path; forks"""
        if not isinstance(b, SymB):
            return bool(b)
        v = self.known(b)
        if v is not None:
            return v
        if self.deadline and time.time() > self.deadline:
            raise PathTimeout()
        z = b.z
        self._defs_for(z)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            if v is True or v is False:
                taken = v
            else:
                taken = v[0]
            self._take(b, taken)
            self.trace.append(taken)
            return taken
        m = self.get_model()
        mv = m.eval(z, model_completion=True)
        if z3.is_true(mv):
            first = True
        elif z3.is_false(mv):
            first = False
        else:
            r = self.check(z)
            first = r == z3.sat
        other = z3.Not(z) if first else z
        r = self.check(other)
        if r == z3.unsat:
            # implied: no fork
            self._take(b, first, implied=True)
            self.trace.append(first)
            return first
        if r == z3.unknown:
            self.stats['unknown'] += 1
        self.stats['branches'] += 1
        self.alts.append(tuple(self.trace) + (not first,))
        self._take(b, first)
        self.model = m
        self.trace.append(first)
        return first

    def _take(self, b, v, implied=False):
        z = b.z if v else z3.Not(b.z)
        self.decided[b.z.get_id()] = v
        _keep.append(b.z)
        self.solver.add(z)
        self.pc.append(z)
        if not implied:
            self.model = None
        self._learn(b, v)

    def _learn(self, b, v):
        p = b.ind
        if p is None:
            z = b.z
            neg = False
            if z3.is_not(z):
                z = z.arg(0)
                neg = True
            a = _by_key.get(('c', z.get_id()))
            if a is None:
                self._learn_z(z, v != neg)
                return
            p = Poly.atom(a) if not neg else Poly.const(1) - Poly.atom(a)
        self._learn_poly(p, F1 if v else F0)
        self._learn_z(b.z, v)

    def _learn_poly(self, p, val):
        """p (0/1 valued) equals val"""
        p = p.subs(self.assign) if self.assign else p
        if p.is_const():
            return
        q = p - Poly.const(val)
        # single atom
        nonconst = [m for m in q.t if m]
        if len(nonconst) == 1 and len(nonconst[0]) == 1:
            c = q.t[nonconst[0]]
            self.set_atom(nonconst[0][0], -q.cval() / c)
            return
        # all-same-sign sums equal to zero
        if not q.cval() and (all(c > 0 for c in q.t.values()) or all(c < 0 for c in q.t.values())):
            if all(ATOMS[a].nonneg for a in q.atoms()):
                for m in nonconst:
                    if len(m) == 1:
                        self.set_atom(m[0], F0)
        elif val == 1 and len(nonconst) == 1 and not p.cval() and p.t[nonconst[0]] == 1:
            for a in nonconst[0]:
                if ATOMS[a].sort == 'ind':
                    self.set_atom(a, F1)

    def _learn_z(self, z, v):
        """x == 0 facts"""
        if z3.is_not(z):
            return self._learn_z(z.arg(0), not v)
        if v and z3.is_and(z):
            for c in z.children():
                self._learn_z(c, True)
            return
        if not v and z3.is_or(z):
            for c in z.children():
                self._learn_z(c, False)
            return
        a = _by_key.get(('c', z.get_id()))
        if a is not None:
            self.set_atom(a.id, F1 if v else F0)
        if z.num_args() == 2 and z3.is_arith(z.arg(0)):
            l, r, k = z.arg(0), z.arg(1), z.decl().kind()
            if z3.is_rational_value(l):
                l, r = r, l
                k = {z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT, z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE}.get(k, k)
            at = _ZATOM.get(l.get_id())
            if at is not None and z3.is_rational_value(r) and r.as_fraction() == 0:
                if (v and k == z3.Z3_OP_GT) or (not v and (k == z3.Z3_OP_LE or (k == z3.Z3_OP_EQ and ATOMS[at].nonneg))):
                    self.posat.add(at)
                elif ATOMS[at].nonneg and ((not v and k == z3.Z3_OP_GT) or (v and k == z3.Z3_OP_LE)):
                    self.set_atom(at, F0)
        if v and z3.is_eq(z):
            l, r = z.arg(0), z.arg(1)
            if z3.is_rational_value(r):
                at = _ZATOM.get(l.get_id())
                if at is not None:
                    self.set_atom(at, Fraction(r.as_fraction()))
                    return
                if r.as_fraction() == 0:
                    # sum of non-negative terms equals zero
                    p = _ZPOLY.get(l.get_id())
                    if p is not None:
                        if self.assign:
                            p = p.subs(self.assign)
                        self._learn_poly(p, F0)

    def set_atom(self, aid, val):
        if aid in self.assign:
            return
        self.assign[aid] = val
        self.assign_keys.add(aid)
        at = ATOMS[aid]
        if at.group is not None:
            if val == 1:
                for o in FDGROUPS[at.group]:
                    if o.id != aid and o.id not in self.assign:
                        self.assign[o.id] = F0
                        self.assign_keys.add(o.id)
            else:
                pass

    def nonzero(self, o):
        """True if o is non-zero on this path (forks when both possible)"""
        for p, e in o.f:
            if e < 0:
                continue
            s = p.sign()
            if s in (1, -2):
                continue
            k = p
            if k in self.nonzero_cache:
                if not self.nonzero_cache[k]:
                    return False
                continue
            r = self.decide_maybe(poly_eq0(p))
            self.nonzero_cache[k] = not r
            if r:
                return False
        return True

    def decide_maybe(self, b):
        return self.decide(b) if isinstance(b, SymB) else bool(b)

    def poly_sign(self, p):
        """+1 / -1 if the path implies p>0 / p<0, else None (no fork)"""
        v = self.sign_cache.get(p)
        if v is not None:
            return v
        s = p.sign()
        if s == 1:
            return 1
        if s == -2:
            return -1
        z = p.z()
        self._defs_for(z)
        if self.check(z <= 0) == z3.unsat:
            self.sign_cache[p] = 1
            return 1
        if self.check(z >= 0) == z3.unsat:
            self.sign_cache[p] = -1
            return -1
        return None

    def sign_of(self, a):
        """known sign without forking: 1 (>=0), -1 (<=0), None"""
        lt = a < 0
        if isinstance(lt, bool):
            return -1 if lt else 1
        k = self.known(lt)
        if k is not None:
            return -1 if k else 1
        return None

    def enum_value(self, a):
        """fork over values of a (number); returns Fraction"""
        for _ in range(64):
            a = a.red()
            if not a.f:
                return a.c
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                # recorded as ('v', value, taken)
                if not (isinstance(v, tuple)):
                    raise RuntimeError('decision trace out of step')
                self.pos += 1
                val, taken = v[1], v[2]
                self.trace.append(v)
                b = (a == Num(val))
                if isinstance(b, bool):
                    if b:
                        return val
                    continue
                self._defs_for(b.z)
                self._take(b, taken)
                if taken:
                    return val
                continue
            m = self.get_model()
            z = a.z()
            self._defs_for(z)
            mv = m.eval(z, model_completion=True)
            if not z3.is_rational_value(mv):
                raise Unsupported('irrational value')
            val = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
            b = (a == Num(val))
            if isinstance(b, bool):
                if b:
                    self.trace.append(('v', val, True))
                    return val
                raise Unsupported('enum')
            r = self.check(z3.Not(b.z))
            if r != z3.unsat:
                self.stats['branches'] += 1
                self.alts.append(tuple(self.trace) + (('v', val, False),))
            self._take(b, True)
            self.model = m
            self.trace.append(('v', val, True))
            return val
        raise Unsupported('too many values')

    def incomplete(self, why):
        self.notes.append(why)


class PathTimeout(PathAbort):
    pass


_DEFNAMES = {}
_ZATOM = {}
_ZPOLY = {}
_orig_new_atom = new_atom


def new_atom(key, z, sort, **kw):      # noqa: F811  (wraps the first definition to index atoms by name)
    a = _by_key.get(key)
    if a is not None:
        return a
    a = _orig_new_atom(key, z, sort, **kw)
    if a.defs and key[0] in ('sqrt', 'floor', 'fresh'):
        n = z.decl().name() if z.num_args() == 0 else z.arg(0).decl().name()
        _DEFNAMES[n] = a
    if sort != 'ind':
        _ZATOM[z.get_id()] = a.id
        _keep.append(z)
    return a


_orig_z = Poly.z


def _poly_z(self):
    if self._z is None:
        self._z = poly_z3(self.t)
        if len(self.t) > 1:
            _ZPOLY[self._z.get_id()] = self
    return self._z


Poly.z = _poly_z
