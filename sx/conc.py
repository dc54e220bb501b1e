"""Concrete harness context: the same harness runs on the real package."""
from fractions import Fraction
import contextlib, math, warnings
import numpy as np
from . import fakes


class BackendError(RuntimeError):
    pass


class Skip(Exception):
    pass


def fl(x):
    if isinstance(x, Fraction):
        return float(x)
    return x


class ConcCtx:
    scripted = None
    fixed_pz = None

    sym = False

    def __init__(self, giddy, rec):
        self.g = giddy
        self.np = np
        self.inputs = rec['inputs']
        self.script = [list(d) for d in rec.get('draws', [])]
        self.choices = []
        self.failed = []
        self.nchecks = 0
        self._n = {}
        self.draws = []
        self.moran_mode = 'free'
        self.moran_calls = []
        self.faults = False
        self.calls = []
        self.onto = []
        self.ndraw = 0
        self.heat = []
        self.interact = []
        self.Backend = BackendError

    def renew(self):
        """go on with an instance of the package that has computed nothing yet"""
        import importlib
        import sys
        old = {k: m for k, m in sys.modules.items() if k == 'giddy' or k.startswith('giddy.')}
        try:
            for k in old:
                del sys.modules[k]
            new = importlib.import_module('giddy')
            for k in old:
                importlib.import_module(k)
        finally:
            for k in [k for k in sys.modules if k == 'giddy' or k.startswith('giddy.')]:
                del sys.modules[k]
            sys.modules.update(old)
        if hasattr(new.markov, 'Moran_Local') and hasattr(self.g.markov, 'Moran_Local'):
            new.markov.Moran_Local = self.g.markov.Moran_Local
        self.g = new

    def val(self, name, default=0):
        v = self.inputs.get(name, default)
        return Fraction(v)

    def fd(self, name, lo, hi):
        v = int(self.val(name, lo))
        return min(max(v, int(lo)), int(hi))

    def bool_(self, name):
        return bool(self.val(name))

    def real(self, name, lo=None, hi=None, strict=False):
        d = 0
        if name not in self.inputs and lo is not None:
            d = Fraction(lo) + (1 if strict else 0)
        return self.val(name, d)

    def int_(self, name, lo=None, hi=None, relaxed=False):
        return int(self.val(name, lo or 0))

    def _nested(self, name, shape, f):
        if not shape:
            return f(name)
        return [self._nested(f'{name}_{i}', shape[1:], f) for i in range(shape[0])]

    def fds(self, name, shape, lo, hi):
        return self._nested(name, shape, lambda n: self.fd(n, lo, hi))

    def reals(self, name, shape, lo=None, hi=None, strict=False):
        return self._nested(name, shape, lambda n: self.real(n, lo, hi, strict))

    def ints(self, name, shape, lo=None, hi=None, relaxed=False):
        return self._nested(name, shape, lambda n: self.int_(n, lo, hi))

    def bools(self, name, shape):
        return self._nested(name, shape, self.bool_)

    def weighted(self, rows, hi, exact=False):
        return np.repeat(np.array(rows), [max(1, self.int_(f'units{i}', 1, hi)) for i in range(len(rows))], axis=0)

    def units(self, i, hi):
        return max(1, self.int_(f'units{i}', 1, hi))

    def fd_array(self, name, shape, lo, hi):
        return np.array(self.fds(name, shape, lo, hi)).reshape(shape)

    def real_array(self, name, shape, lo=None, hi=None):
        return self.array(self.reals(name, shape, lo, hi))

    def array(self, nested, kind=None):
        if isinstance(nested, np.ndarray):
            a = nested.copy()
        else:
            def conv(x):
                if isinstance(x, (list, tuple)):
                    return [conv(v) for v in x]
                return fl(x)
            a = np.array(conv(nested))
        if kind:
            a = a.astype({'i': int, 'f': float, 'b': bool, 'O': object}[kind])
        return a

    def choose(self, name, n):
        self._n[name] = self._n.get(name, 0) + 1
        return self.fd(f'{name}#{self._n[name]}', 0, n - 1)

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def fork(self, cond):
        return bool(cond)

    def value(self, x):
        return int(x)

    def draw_perm(self, n):
        # consumes the same names as the symbolic run
        rest = list(range(n))
        out = []
        while len(rest) > 1:
            out.append(rest.pop(self.choose('perm', len(rest))))
        return out + rest

    def graph(self, n, name='w', islands=True, connected=False, symmetric=True, ids=None):
        ids = ids or list(range(n))
        nb = {i: [] for i in ids}
        for i in range(n):
            for j in range(i):
                if self.bool_(f'{name}_{j}_{i}'):
                    nb[ids[i]].append(ids[j])
                    nb[ids[j]].append(ids[i])
        for i in nb:
            nb[i].sort(key=ids.index)
        return self.W(nb, ids)

    def W(self, neighbors, id_order=None, weights=None):
        from libpysal.weights import W
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            w = {i: [float(x) for x in v] for i, v in weights.items()} if weights else None
            return W(neighbors, w, id_order=id_order, silence_warnings=True)

    def drawn(self, name):
        """an axes object of the drawing back end"""
        return fakes.Drawn(name)

    def drawing(self, name, a=(), k=None):
        self.ndraw += 1
        self.calls.append((name, a, k or {}))
        if self.faults and self.bool_(f'fault#{self.ndraw}'):
            raise BackendError(name)

    def fractions(self, lim=40):
        pass

    # ---- logic
    def assume(self, c):
        if not bool(np.all(c)):
            raise Skip()

    def check(self, label, c, info=None):
        self.nchecks += 1
        if not bool(np.all(c)):
            self.failed.append(label)

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, np.ndarray) and a.size == 1:
            a = a.item()
        if isinstance(b, np.ndarray) and b.size == 1:
            b = b.item()
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return a == b
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))

    def arr_eq(self, A, B):
        A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
        if A.shape != B.shape:
            return False
        return all(self.eq(x, y) for x, y in zip(A.ravel().tolist(), B.ravel().tolist()))

    def check_eq(self, label, A, B):
        if not isinstance(A, (list, tuple, np.ndarray)):
            return self.check(label, self.eq(A, B))
        A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
        if A.shape != B.shape:
            return self.check(label + ':shape', False)
        for x, y in zip(A.ravel().tolist(), B.ravel().tolist()):
            self.check(label, self.eq(x, y))

    def and_(self, *c):
        return all(map(bool, c))

    def or_(self, *c):
        return any(map(bool, c))

    def not_(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def all_(self, cs):
        return all(bool(x) for x in list(cs))

    def any_(self, cs):
        return any(bool(x) for x in list(cs))

    def ite(self, c, a, b):
        return a if bool(c) else b

    def ind(self, c):
        return int(bool(c))

    def count(self, cs):
        return sum(int(bool(c)) for c in cs)

    def sum(self, xs):
        s = 0
        for x in xs:
            s = s + self.num(x)
        return s

    def num(self, x):
        if isinstance(x, np.ndarray):
            x = x.item()
        if isinstance(x, (bool, np.bool_)):
            return int(x)
        if isinstance(x, (np.integer,)):
            return int(x)
        if isinstance(x, np.floating):
            return float(x)
        return x

    def div(self, a, b):
        a, b = self.num(a), self.num(b)
        if b == 0:
            if a == 0 or a != a:
                return float('nan')
            return float('inf') if a > 0 else float('-inf')
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return Fraction(a) / Fraction(b)
        return float(a) / float(b)

    def abs(self, x):
        return abs(x)

    def min(self, xs):
        return min(list(xs))

    def max(self, xs):
        return max(list(xs))

    def sqrt(self, x):
        x = float(x)
        return math.sqrt(x) if x >= 0 else float('nan')

    def log(self, x):
        x = float(x)
        return math.log(x) if x > 0 else (float('-inf') if x == 0 else float('nan'))

    def erfc(self, x):
        return math.erfc(float(x))

    def chi2sf(self, x, d):
        from scipy import stats
        return float(1 - stats.chi2.cdf(float(x), float(d)))

    def arctan2(self, y, x):
        return math.atan2(float(y), float(x))

    pi = math.pi

    def isnan(self, x):
        return math.isnan(float(x))

    def isinf(self, x):
        return math.isinf(float(x))

    def items(self, a):
        return np.asarray(a).tolist()

    def shape(self, a):
        return tuple(np.asarray(a).shape)

    def copy(self, a):
        return np.asarray(a).tolist()

    def quantiles(self, y, k):
        import mapclassify
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return [float(v) for v in mapclassify.Quantiles(np.asarray(y, dtype=float).flatten(), k=k).bins]

    def shallow(self, f):
        return f()

    def raises(self, f, *exc):
        try:
            return None, f()
        except (Skip,):
            raise
        except exc or (Exception,) as e:
            return e, None

    def close(self, a, b, tol):
        a, b = float(a), float(b)
        return self.eq(a, b) or abs(a - b) <= 1.02 * float(tol) + 1e-9

    def said(self, f):
        import io
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            f()
        return out.getvalue()

    def spoken(self, word):
        try:
            v = float(word)
        except ValueError:
            return None
        return v, 0.5 * 10 ** -len(word.split('.')[1]) if '.' in word and 'e' not in word else 0

    def eigmods(self, P):
        return [float(v) for v in np.abs(np.linalg.eigvals(np.array([[fl(v) for v in r] for r in P], float)))]

    def stationary(self, P):
        A = np.array([[float(v) for v in r] for r in P])
        n = len(A)
        M = np.vstack([A.T - np.eye(n), np.ones(n)])
        return np.linalg.lstsq(M, np.r_[np.zeros(n), 1], rcond=None)[0].tolist()

    def rcparams(self):
        import matplotlib as mpl
        return dict(mpl.rcParams), dict(self.rc0)

    def rng_state(self):
        s = np.random.get_state()
        return (s[0], s[1].tolist(), s[2:])


class FakeMoran:
    """a local Moran analysis with the outcome the solver chose"""

    def __init__(self, c, y, w, transformation='r', permutations=999, geoda_quads=False, **kw):
        y = np.asarray(y, dtype=float).flatten()
        self.c, self.y, self.w, self.n = c, y, w, len(y)
        self.permutations, self.geoda_quads = permutations, geoda_quads
        self.rng_at_start = c.rng_state()
        w.transform = transformation
        idx = len(c.moran_calls)
        c.moran_calls.append(self)
        if c.moran_mode == 'exact':
            z = y - y.mean()
            zl = w.sparse @ z
            hh, ll, lh, hl = (1, 2, 3, 4) if geoda_quads else (1, 3, 2, 4)
            zp, lp = z > 0, zl > 0
            self.q = np.where(zp, np.where(lp, hh, hl), np.where(lp, lh, ll))
        else:
            self.q = c.fd_array(f'moran_q{idx}', (self.n,), 1, 4)
        if permutations:
            np.random.random()
            if c.faults:
                c.drawing('moran', (self,), {})
            self.p_sim = c.real_array(f'moran_p{idx}', (self.n,), 0, 1)
            self.p_z_sim = c.real_array(f'moran_pz{idx}', (self.n,), 0, 1)
            if c.fixed_pz:
                for i, v in enumerate(c.fixed_pz[idx]):
                    if v is not None:
                        self.p_z_sim[i] = v / 100
            self.z_sim = None

    def plot(self, *a, **k):
        self.c.onto.append(None)
        self.c.drawing('moran.plot', (self,) + a, k)
        return fakes.Drawn('fig'), fakes.Drawn('ax')


def custom_defaults(rc):
    """plotting defaults of a user who has changed them: going back to the library's own ones is a change"""
    for k in list(rc):
        if k.split('.')[0] not in ('axes', 'grid', 'figure', 'lines', 'xtick', 'ytick', 'legend', 'patch', 'font', 'savefig'):
            continue
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                v = rc[k]
                if 'color' in k and isinstance(v, str):
                    rc[k] = '#1a2b3c'
                elif isinstance(v, bool):
                    rc[k] = not v
                elif isinstance(v, float) and v > 0:
                    rc[k] = v * 0.75
            except (ValueError, KeyError):
                pass


@contextlib.contextmanager
def patched(c, giddy, drawing):
    """scripted random draws; a scripted local Moran when the harness leaves its outcome free"""
    saved = []

    def put(o, n, v):
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)

    def nxt(n):
        while c.script:
            p = c.script.pop(0)
            if len(p) == n:
                c.draws.append(p)
                return p
        c.draws.append(list(range(n)))
        return None
    o_perm, o_shuf, o_choice = np.random.permutation, np.random.shuffle, np.random.choice

    def perm(x):
        n = int(x) if np.ndim(x) == 0 else len(x)
        p = nxt(n)
        o_perm(n)         # advance the state
        if p is None:
            p = list(range(n))
        if np.ndim(x) == 0:
            return np.array(p)
        return np.asarray(x)[np.array(p, dtype=int)].copy()

    def shuf(x):
        n = len(x)
        p = nxt(n)
        o_perm(n)
        if p is None:
            return
        if isinstance(x, np.ndarray):
            x[...] = x[np.array(p, dtype=int)].copy()
        else:
            x[:] = [x[i] for i in p]

    def choice(a, size=None, replace=True, p=None):
        if size is not None:
            return o_choice(a, size, replace, p)
        els = list(range(a)) if np.ndim(a) == 0 else list(a)
        return np.asarray(els)[c.choose('lagtie', len(els))]
    put(np.random, 'permutation', perm)
    put(np.random, 'shuffle', shuf)
    put(np.random, 'choice', choice)

    def mk(y, w, *a, **k):
        names = ['transformation', 'permutations', 'geoda_quads']
        k.update(dict(zip(names, a)))
        m = FakeMoran(c, y, w, **k)
        return m
    c.FakeMoran = mk
    if c.moran_mode is not None:
        import esda.moran
        put(giddy.markov, 'Moran_Local', mk) if hasattr(giddy.markov, 'Moran_Local') else None
        pl = __import__('importlib').import_module('giddy.plotting') if drawing else None
        if pl is not None and hasattr(pl, 'Moran_Local'):
            put(pl, 'Moran_Local', mk)
    if drawing:
        import matplotlib as mpl
        import giddy.plotting as pl
        import matplotlib.pyplot as plt
        fakes.C = c
        for name in ('figure', 'subplot', 'subplots', 'plot', 'axis', 'xlim', 'ylim', 'gca', 'gcf', 'close', 'show', 'tight_layout', 'axes', 'scatter', 'title'):
            if hasattr(plt, name):
                put(plt, name, fakes.Drawn('plt.' + name) if name != 'subplots' else fakes.subplots)
        import seaborn as sns
        put(sns, 'heatmap', fakes.heatmap)
        try:
            import ipywidgets
            put(ipywidgets, 'interact', lambda f, **k: c.interact.append((f, k)))
            put(ipywidgets, 'fixed', lambda v: v)
        except ImportError:
            import sys, types
            m = types.ModuleType('ipywidgets')
            m.interact, m.fixed = (lambda f, **k: c.interact.append((f, k))), lambda v: v
            sys.modules['ipywidgets'] = m
            saved.append((None, 'module', 'ipywidgets'))
        saved.append((None, 'rc', dict(mpl.rcParams)))
        custom_defaults(mpl.rcParams)
        c.rc0 = dict(mpl.rcParams)
    try:
        yield
    finally:
        for o, n, v in reversed(saved):
            if o is None and n == 'module':
                import sys
                sys.modules.pop(v, None)
            elif o is None:
                import matplotlib as mpl
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    mpl.rcParams.update(v)
            else:
                setattr(o, n, v)
