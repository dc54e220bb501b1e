"""Load giddy from /repo's current source into the symbolic interpreter.

The module sources are parsed on every run, lightly rewritten (number literals, division, conversions, formatting and
dtype reads become engine calls) and executed with symbolic stand-ins for numpy and the other libraries.
"""
import ast, builtins, os, re, sys, types
from fractions import Fraction
from . import core, arr
from .core import Num, SymB, lift, ite, isb, b_and, b_or, b_not, Unsupported, cast

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'giddy'


# ------------------------------------------------------------------ run time helpers
def sx_float(text):
    return Num(Fraction(text), (), 'f', None, True)


def sx_div(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return lift(a) / lift(b)
    return a / b


class Fmt:
    """an object substituted for symbolic values in formatted strings"""

    def __init__(self, v):
        self.v = v

    def __str__(self):
        return core.token(self.v) if isinstance(self.v, Num) else '<sym>'
    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __int__(self):
        return 0

    def __index__(self):
        return 0

    def __float__(self):
        return 0.0


def _fmtval(v):
    if isinstance(v, Num):
        r = v.red()
        if r.sp:
            return float(r.sp)
        if r.is_const():
            return int(r.c) if r.kind == 'i' else float(r.c)
        return Fmt(v)
    if isinstance(v, SymB):
        return Fmt(v)
    if isinstance(v, arr.SArray) and v.size == 1:
        return _fmtval(v._flat()[0])
    return v


def sx_mod(a, b):
    if isinstance(a, str):
        if isinstance(b, tuple):
            b = tuple(_fmtval(x) for x in b)
        elif isinstance(b, dict):
            b = {k: _fmtval(v) for k, v in b.items()}
        else:
            b = _fmtval(b)
        vs = b if isinstance(b, tuple) else (b,)
        if any(isinstance(v, Fmt) for v in vs):
            # symbolic values become tokens, everything else is formatted as usual
            it = iter(vs)

            def one(m):
                if m.group(2) == '%':
                    return '%'
                v = [next(it) for _ in range(m.group(1).count('*') + 1)]
                return str(v[-1]) if isinstance(v[-1], Fmt) else m.group(0) % tuple(v)
            return re.sub(r'%([-+ #0-9.*]*)([a-zA-Z%])', one, a)
        return a % b
    return a % b


def sx_int(*a, **k):
    if len(a) == 1 and isinstance(a[0], (Num, SymB, arr.SArray)):
        v = a[0]
        if isinstance(v, arr.SArray):
            if v.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            v = v._flat()[0]
        n = lift(v)
        if n.sp:
            raise (ValueError if n.sp == 'nan' else OverflowError)('cannot convert float to integer')
        n = n.trunc()
        if n.is_const():
            return int(n.c)
        return Num(n.c, n.f, 'i', None, True)
    if len(a) == 1 and isinstance(a[0], bool):
        return int(a[0])
    return int(*a, **k)


def sx_floatc(*a):
    if len(a) == 1 and isinstance(a[0], str):
        return lift(float(a[0]))
    if len(a) == 1 and isinstance(a[0], (Num, SymB, int, float, arr.SArray)):
        v = a[0]
        if isinstance(v, arr.SArray):
            if v.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            v = v._flat()[0]
        n = lift(v)
        return Num(n.c, n.f, 'f', n.sp, True)
    return float(*a)


def sx_bool(*a):
    if len(a) == 1:
        v = a[0]
        if isinstance(v, SymB):
            return v
        if isinstance(v, Num):
            return v != 0
    return bool(*a)


def _isnumlike(v):
    return isinstance(v, (Num, SymB))


def sx_min(*a, **k):
    return _minmax(core.s_min, builtins.min, a, k)


def sx_max(*a, **k):
    return _minmax(core.s_max, builtins.max, a, k)


def _minmax(f, real, a, k):
    if k.get('key') is None and a:
        els = list(a[0]) if len(a) == 1 else list(a)
        if els and any(_isnumlike(e) and not (isinstance(e, Num) and e.is_const()) for e in els) \
                and all(_isnumlike(e) or isinstance(e, (int, float)) for e in els):
            acc = els[0]
            for e in els[1:]:
                acc = f(acc, e)
            return acc
        if len(a) == 1:
            return real(els, **k)
    return real(*a, **k)


def sx_sum(it, start=0):
    if isinstance(it, arr.SMasked):
        if it.v.ndim == 1:
            r = it.sum()
            return r + start if not (isinstance(start, int) and start == 0) else r
        it = it.concrete()
    els = list(it)
    if els and all(_isnumlike(e) or isinstance(e, (int, float)) for e in els) and any(_isnumlike(e) for e in els):
        r = arr.sum_els(els)
        if not (isinstance(start, int) and start == 0):
            r = r + start
        return r
    acc = start
    for e in els:
        acc = acc + e
    return acc


def sx_abs(v):
    return abs(v)


def sx_any(it):
    if isinstance(it, arr.SMasked):
        return it.any()
    if isinstance(it, arr.SArray) and it.ndim == 1:
        return it.any()
    for e in it:
        if e:
            return True
    return False


def sx_all(it):
    if isinstance(it, arr.SMasked):
        return it.all()
    if isinstance(it, arr.SArray) and it.ndim == 1:
        return it.all()
    for e in it:
        if not e:
            return False
    return True


def sx_isinstance(o, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for x in ts:
        flat.extend(x if isinstance(x, tuple) else (x,))
    if isinstance(o, Num):
        for x in flat:
            n = getattr(x, '__name__', '')
            if n in ('Number', 'Real', 'Complex', 'number') or x is object or x is Num:
                return True
            if o.kind == 'i' and n in ('int', 'integer', 'int64', 'Integral', 'signedinteger', 'int32', 'int_'):
                return not (x is int and not o.py) or True
            if o.kind == 'f' and n in ('float', 'floating', 'float64'):
                return True
        return False
    if isinstance(o, (SymB, bool)):
        for x in flat:
            if getattr(x, '__name__', '') in ('bool', 'bool_', 'int'):
                return True
        return isinstance(o, tuple(flat))
    if isinstance(o, (arr.SArray, arr.SMasked)):
        return any(x in (arr.SArray, object) or getattr(x, '__name__', '') in ('ndarray', 'Sized', 'Iterable', 'Sequence') and x is not list for x in flat) \
            or builtins.isinstance(o, tuple(x for x in flat if isinstance(x, type)))
    flat = [x for x in flat if isinstance(x, type) or hasattr(x, '__instancecheck__')]
    return builtins.isinstance(o, tuple(flat))


def sx_str(*a, **k):
    if len(a) == 1:
        v = a[0]
        if isinstance(v, SymB):
            return str(bool(v))
        if isinstance(v, Num):
            r = v.red()
            if r.sp:
                return r.sp
            if r.kind == 'i':
                return str(int(r.concretize()))
            if r.is_const():
                return repr(float(r.c))
            p = r.poly()
            if p is not None and p.isint() and p.bounds() is not None:
                return repr(float(r.concretize()))
            raise Unsupported('str of a symbolic real')
    return str(*a, **k)


def sx_print(*a, sep=' ', end='\n', file=None, flush=False):
    t = (' ' if sep is None else sep).join([x if isinstance(x, str) else str(x) for x in a]) + ('\n' if end is None else end)
    if file is not None:
        file.write(t)
    elif core.CUR is not None:
        core.CUR.ctx.printed.append(t)


def sx_in(a, b):
    """a in b for containers of numbers without forking on every element"""
    if isinstance(b, (list, tuple)) and _isnumlike(a):
        return core.b_any([arr.eq_(a, x) if not isinstance(x, str) else False for x in b])
    if isinstance(b, arr.SArray):
        return (b == a).any()
    if isinstance(b, range) and isinstance(a, Num):
        return core.b_any([a == x for x in b])
    if isinstance(b, (list, tuple)) and isinstance(a, (int, float)) and not isinstance(a, bool) \
            and any(_isnumlike(x) for x in b):
        return core.b_any([arr.eq_(lift(a), x) for x in b if not isinstance(x, str)])
    return a in b


def sx_not(a):
    if isinstance(a, SymB):
        return b_not(a)
    return not a


def sx_dtype(x):
    return arr.dtype_of(x)


def sx_len(x):
    return len(x)


def sx_round(x, *nd):
    return round(x, *nd)


# ------------------------------------------------------------------ rewriting
class Rewrite(ast.NodeTransformer):
    CALLS = {'int': '__sx_int__', 'float': '__sx_float__', 'bool': '__sx_bool__', 'str': '__sx_str__'}

    def __init__(self, src):
        self.src = src

    def call(self, name, args, node):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), args, []), node)

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            try:
                txt = repr(node.value)
                if 'inf' in txt or 'nan' in txt:
                    return node
            except Exception:
                return node
            return self.call('__sx_const__', [ast.copy_location(ast.Constant(txt), node)], node)
        return node

    def visit_JoinedStr(self, node):
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.call('__sx_fmt__', [self.visit(v.value)], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return self.call('__sx_div__', [node.left, node.right], node)
        if isinstance(node.op, ast.Mod):
            return self.call('__sx_mod__', [node.left, node.right], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return self.call('__sx_in__', [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                return self.call('__sx_not__', [self.call('__sx_in__', [node.left, node.comparators[0]], node)], node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.call('__sx_not__', [node.operand], node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.CALLS:
            node.func = ast.copy_location(ast.Name(self.CALLS[node.func.id], ast.Load()), node.func)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == 'dtype' and isinstance(node.ctx, ast.Load):
            return self.call('__sx_dtype__', [node.value], node)
        return node


_CODE = {}


def transform(path):
    c = _CODE.get(path)
    if c is None:
        c = _CODE[path] = _transform(path)
    return c


def _transform(path):
    with open(path) as f:
        src = f.read()
    tree = ast.parse(src, path)
    # docstrings stay untouched
    tree = Rewrite(src).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


class Program:
    """a fresh symbolic instance of the giddy package"""

    def __init__(self, externals, repo=None):
        self.repo = repo or REPO
        self.ext = externals
        self.mods = {}
        self.functions = set()
        b = {k: getattr(builtins, k) for k in dir(builtins)}
        b.update(__import__=self._import, min=sx_min, max=sx_max, sum=sx_sum, any=sx_any, all=sx_all,
                 isinstance=sx_isinstance, print=sx_print,
                 __sx_int__=sx_int, __sx_float__=sx_floatc, __sx_bool__=sx_bool, __sx_str__=sx_str,
                 __sx_const__=sx_float, __sx_div__=sx_div, __sx_mod__=sx_mod, __sx_in__=sx_in, __sx_not__=sx_not,
                 __sx_dtype__=sx_dtype, __sx_fmt__=_fmtval)
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or PKG
            for _ in range(level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            full = pkg + ('.' + name if name else '')
            m = self.module(full)
            for f in fromlist or ():
                if not hasattr(m, f) and f != '*':
                    try:
                        setattr(m, f, self.module(full + '.' + f))
                    except FileNotFoundError:
                        raise ImportError(f'cannot import name {f!r} from {full!r}')
            return m
        top = name.split('.')[0]
        if top == PKG:
            m = self.module(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and f != '*':
                        setattr(m, f, self.module(name + '.' + f))
                return m
            return self.module(PKG)
        if top in self.ext:
            m = self.ext[top]
            cur = m
            for part in name.split('.')[1:]:
                cur = getattr(cur, part)
            return cur if fromlist else m
        if top in ('copy', 'itertools', 'operator', 'math', 'contextlib', 'functools', 'collections', 'typing',
                   'numbers', 'random', 'string', 're', 'sys', 'os', 'time', 'abc', 'dataclasses', 'heapq', 'bisect',
                   'enum', 'types', '__future__', 'importlib', 'fractions', 'warnings'):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        raise ImportError(f'No module named {name!r} (not available to the symbolic interpreter)')

    def module(self, full):
        m = self.mods.get(full)
        if m is not None:
            return m
        parts = full.split('.')
        base = os.path.join(self.repo, *parts)
        if full == PKG:
            m = types.ModuleType(PKG)
            m.__path__ = [os.path.join(self.repo, PKG)]
            m.__package__ = PKG
            m.__version__ = '0'
            self.mods[full] = m
            return m
        if os.path.isdir(base):
            path = os.path.join(base, '__init__.py')
            pk = full
        else:
            path = base + '.py'
            pk = full.rsplit('.', 1)[0]
        if not os.path.exists(path):
            raise FileNotFoundError(path)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = pk
        m.__dict__['__builtins__'] = self.builtins
        self.mods[full] = m
        code = transform(path)
        exec(code, m.__dict__)
        par = self.module(PKG)
        if len(parts) == 2:
            setattr(par, parts[1], m)
        return m
