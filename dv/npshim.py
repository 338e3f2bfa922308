"""numpy / math as seen by the verified code (exact arithmetic; contracts assumed for eigen-decompositions)."""
import math as _m, types
import numpy as np
import z3
from . import core
from .core import *
from .seqs import *

def plain(x):
    """GList -> list, recursively"""
    if isinstance(x, GList):
        if x.pre is not None: raise Unsupported("numpy array of symbolic length")
        return [plain(y) for y in x.tail]
    if isinstance(x, SSeq):
        if not isinstance(x.n, int): raise Unsupported("numpy array of symbolic length")
        return [plain(x.fn(i)) for i in range(x.n)]
    if isinstance(x, (list,)): return [plain(y) for y in x]
    if isinstance(x, tuple): return tuple(plain(y) for y in x)
    return x

class SMatrix(np.matrix):
    @property
    def I(self): return NP.the.linalg.inv(self)
    getI = None
    def __deepcopy__(self, memo): return self.copy()
    def __mul__(self, o):
        if isinstance(o, GList): o = mk(o)
        if isinstance(o, Sym): return np.multiply(self, o)
        return np.matrix.__mul__(self, o)
    def __rmul__(self, o):
        if isinstance(o, Sym): return np.multiply(self, o)
        return np.matrix.__rmul__(self, o)

def mk(x, cls=None):
    a = np.array(plain(x), dtype=object)
    if a.ndim == 0: return a
    return a

def tomat(x):
    if isinstance(x, SMatrix): return x.copy()
    if isinstance(x, (str, SStr)):
        # numpy.matrix('[a, b]'): one row of comma or blank separated numbers
        from .pyrt import conv_float
        ps = list((x if isinstance(x, SStr) else SStr([x])).parts)
        if not ps or not isinstance(ps[0], str) or not isinstance(ps[-1], str) or ';' in ''.join(p for p in ps if isinstance(p, str)): raise Unsupported("matrix from text")
        ps[0] = ps[0].lstrip().lstrip('['); ps[-1] = ps[-1].rstrip().rstrip(']')
        x = GList([conv_float(t) for t in SStr([p.replace(',', ' ') if isinstance(p, str) else p for p in ps])._ws()])
    a = mk(x)
    if a.ndim < 2: a = a.reshape(1, -1)
    return a.view(SMatrix)

def allconc(a): return not any(isinstance(v, Sym) for v in a.flat)

def det(a):
    n = a.shape[0]
    if n == 0: return 1.0
    if n == 1: return a[0, 0]
    if n == 2: return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    s = 0
    for j in range(n):
        v = a[0, j]
        if not isinstance(v, Sym) and v == 0: continue
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        t = v * det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s

class LinAlg(types.SimpleNamespace):
    pass

class NP:
    the = None
    def __init__(self, front):
        NP.the = self
        self.front = front
        self.linalg = LinAlg()
        L = self.linalg
        L.LinAlgError = np.linalg.LinAlgError
        L.linalg = types.SimpleNamespace(LinAlgError=np.linalg.LinAlgError)
        L.det = self.det; L.inv = self.inv; L.eig = self.eig; L.eigh = self.eigh; L.norm = self.norm
        L.cholesky = lambda *a: self._unsup('cholesky', a)
        self.matrix = tomat
        self.pi = np.pi
        self.math = front_math = MathShim(front)
        self.newaxis = None
        self.ndarray = np.ndarray
        self.float64 = float
        self.random = types.SimpleNamespace(seed=lambda *a: None, uniform=self.rnd_uniform)
    def _unsup(self, n, a): raise Unsupported("numpy." + n)
    def rnd_uniform(self, lo=0., hi=1., size=None):
        def one():
            v = SR(core.E.fresh_real('rnd')); core.E.assume(z3.And(v.t >= tr(lo), v.t <= tr(hi))); return v
        if size is None: return one()
        return mk([one() for _ in range(size)])
    def array(self, x, dtype=None, **k):
        if dtype not in (None, float, object, 'float', 'float64', 'd') or k.get('ndmin') or k.get('copy') is False: raise Unsupported("numpy.array of another element type")
        if isinstance(x, np.ndarray): return np.array(x, dtype=object)
        return mk(x)
    def asarray(self, x, dtype=None): return x if isinstance(x, np.ndarray) else mk(x)
    def zeros(self, shape, dtype=None, order=None):
        if dtype not in (None, float, object, 'float', 'float64', 'd'): raise Unsupported("numpy.zeros of another element type")
        sh = tuple(plain(shape)) if isinstance(shape, (tuple, list, GList)) else (shape,)
        for d in sh:
            if isinstance(d, (float, SR)): raise TypeError("'float' object cannot be interpreted as an integer")
        a = np.empty(tuple(int(d) for d in sh), dtype=object); a.fill(0.0); return a
    def ones(self, shape, dtype=None):
        a = self.zeros(shape); a.fill(1.0); return a
    def identity(self, n):
        a = self.zeros((n, n))
        for i in range(n): a[i, i] = 1.0
        return a
    def eye(self, n): return self.identity(n)
    def shape(self, x):
        if isinstance(x, np.ndarray): return x.shape
        if isinstance(x, (SR, SI)): return ()
        return mk(x).shape
    def dot(self, a, b): return np.dot(mk(a) if not isinstance(a, np.ndarray) else a, mk(b) if not isinstance(b, np.ndarray) else b)
    def vdot(self, a, b): return np.dot(mk(a).ravel(), mk(b).ravel())
    def transpose(self, a): return np.transpose(a if isinstance(a, np.ndarray) else mk(a))
    def diagflat(self, v):
        v = np.asarray(mk(v) if not isinstance(v, np.ndarray) else v).ravel()
        a = self.zeros((len(v), len(v)))
        for i in range(len(v)): a[i, i] = v[i]
        return a
    def _a(self, x): return x if isinstance(x, np.ndarray) else mk(x)
    def delete(self, a, i, axis=None): return np.delete(self._a(a), i, axis)
    # rearrangements of elements: numpy's own, on arrays of terms
    def vstack(self, x): return np.vstack([self._a(y) for y in plain(x)])
    def hstack(self, x): return np.hstack([self._a(y) for y in plain(x)])
    def concatenate(self, x, axis=0): return np.concatenate([self._a(y) for y in plain(x)], axis)
    def diag(self, v, k=0):
        a = self._a(v)
        if a.ndim == 1:
            r = self.zeros((len(a) + abs(k),) * 2)
            for i in range(len(a)): r[i + max(-k, 0), i + max(k, 0)] = a[i]
            return r
        return np.diag(a, k)
    def diagonal(self, a, k=0): return np.diagonal(self._a(a), k)
    def trace(self, a): return np.trace(self._a(a))
    def outer(self, a, b):
        a = self._a(a).ravel(); b = self._a(b).ravel()
        return mk([[x * y for y in b] for x in a])
    def inner(self, a, b): return np.inner(self._a(a), self._a(b))
    def matmul(self, a, b): return np.dot(self._a(a), self._a(b))
    def reshape(self, a, s): return np.reshape(self._a(a), tuple(plain(s)) if isinstance(s, (tuple, list, GList)) else s)
    def ravel(self, a): return np.ravel(self._a(a))
    def copy(self, a): return np.array(self._a(a), dtype=object)
    def empty(self, shape, dtype=None):
        raise Unsupported("numpy.empty")
    def full(self, shape, v, dtype=None):
        a = self.zeros(shape, dtype); a.fill(v); return a
    def zeros_like(self, a): return self.zeros(self._a(a).shape)
    def append(self, a, b, axis=None): return np.append(self._a(a), self._a(b), axis)
    def square(self, x): return x * x
    def multiply(self, a, b): return np.multiply(self._a(a), self._a(b))
    def add(self, a, b): return np.add(self._a(a), self._a(b))
    def subtract(self, a, b): return np.subtract(self._a(a), self._a(b))
    def sqrt(self, x):
        if isinstance(x, np.ndarray): return np.array([self.sqrt(v) for v in x.flat], dtype=object).reshape(x.shape)
        return power(x, 0.5) if isinstance(x, Sym) else np.sqrt(x)
    def real(self, x):
        return x
    def imag(self, x): return 0.0
    def conj(self, x): return x
    def exp(self, x): return self.math.exp(x)
    def mean(self, x, axis=None):
        s = self.front.rt.seq_of(x)
        if s is not None: return self.front.b_sum(x) / self.front.b_len(x)
        xs = list(mk(x).flat)
        t = 0.0
        for v in xs: t = t + v
        return t / len(xs)
    def std(self, x):
        m = self.mean(x)
        return power(self.mean([(v - m) ** 2 for v in mk(x).flat]), 0.5)
    def sum(self, x):
        s = self.front.rt.seq_of(x)
        if s is not None: return self.front.b_sum(x)
        t = 0.0
        for v in mk(x).flat: t = t + v
        return t
    def abs(self, x): return abs(x)
    def det(self, m):
        a = np.asarray(m if isinstance(m, np.ndarray) else mk(m))
        if a.ndim != 2 or a.shape[0] != a.shape[1]: raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        if allconc(a): return float(np.linalg.det(a.astype(float)))
        return det(a)
    def inv(self, m):
        a = np.asarray(m if isinstance(m, np.ndarray) else mk(m))
        if a.ndim != 2 or a.shape[0] != a.shape[1]: raise np.linalg.LinAlgError("square")
        n = a.shape[0]
        if allconc(a): r = np.linalg.inv(a.astype(float)).astype(object)
        else:
            d = det(a)
            try: core.E.nonzero(d)
            except ZeroDivisionError: raise np.linalg.LinAlgError("Singular matrix")
            r = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    c = det(np.delete(np.delete(a, j, 0), i, 1)) if n > 1 else 1.0
                    r[i, j] = (c if (i + j) % 2 == 0 else -c) / d
        return r.view(SMatrix) if isinstance(m, np.matrix) else r
    def eigh(self, m):
        """assumed contract (numpy): real symmetric input -> ascending eigenvalues, orthonormal eigenvectors in columns"""
        a = np.asarray(m if isinstance(m, np.ndarray) else mk(m)); n = a.shape[0]
        E = core.E
        if E.eigh_hook is not None: return E.eigh_hook(m)
        E.assumed.add('numpy.linalg.eigh: A = V diag(w) V^T, V^T V = 1')
        if n > 3: raise Unsupported("eigh of a symbolic matrix larger than 3x3")
        w = [SR(E.fresh_real('eval')) for _ in range(n)]
        v = [[SR(E.fresh_real('evec')) for _ in range(n)] for _ in range(n)]
        for i in range(n):
            for j in range(n):
                # uses the lower triangle, as numpy does
                aij = a[i, j] if i >= j else a[j, i]
                s = 0
                for k in range(n): s = s + v[i][k] * w[k] * v[j][k]
                E.fact(tr(s) == tr(aij))
                s = 0; s2 = 0
                for k in range(n): s = s + v[k][i] * v[k][j]; s2 = s2 + v[i][k] * v[j][k]
                E.fact(tr(s) == (1 if i == j else 0)); E.fact(tr(s2) == (1 if i == j else 0))
        for i in range(n - 1): E.fact(w[i].t <= w[i + 1].t)
        V = np.array(v, dtype=object)
        return np.array(w, dtype=object), (V.view(SMatrix) if isinstance(m, np.matrix) else V)
    def eig(self, m):
        h = core.E.eig_hook
        if h is None: raise Unsupported("numpy.linalg.eig")
        return h(m)
    def norm(self, x):
        t = 0.0
        for v in mk(x).flat: t = t + v * v
        return power(t, 0.5)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        def f(*a, **k): raise Unsupported("numpy." + n)
        if not hasattr(np, n): raise AttributeError("module 'numpy' has no attribute %r" % n)
        return f

class MathShim:
    pi = _m.pi; e = _m.e; inf = _m.inf; nan = _m.nan
    def __init__(self, front): pass
    def sqrt(self, x):
        if isinstance(x, Sym):
            if not core.E.fork(tr(x) >= 0): raise ValueError("math domain error")
            return power(x, 0.5)
        return _m.sqrt(x)
    def _trig(self, x):
        E = core.E
        s = E.uf('sin', 1)(tr(x)); c = E.uf('cos', 1)(tr(x))
        k = ('trig', z3.simplify(tr(x)).get_id())
        if k not in E.facts_ids:
            E.facts_ids.add(k); E.keep.append(z3.simplify(tr(x)))
            E.fact(s * s + c * c == 1)
        return SR(s), SR(c)
    def sin(self, x): return self._trig(x)[0] if isinstance(x, Sym) else _m.sin(x)
    def cos(self, x): return self._trig(x)[1] if isinstance(x, Sym) else _m.cos(x)
    def tan(self, x):
        if not isinstance(x, Sym): return _m.tan(x)
        s, c = self._trig(x); return s / c
    def atan2(self, y, x):
        if not isinstance(x, Sym) and not isinstance(y, Sym): return _m.atan2(y, x)
        E = core.E
        p = E.uf('atan2', 2)(tr(y), tr(x))
        k = ('atan2', p.get_id())
        if k not in E.facts_ids:
            E.facts_ids.add(k); E.keep.append(p)
            # the radius: a sum of squares has a root on every path
            r = SR(E.root(tr(x) * tr(x) + tr(y) * tr(y), 2, search=False))
            s, c = self._trig(SR(p))
            E.fact(z3.And(r.t * c.t == tr(x), r.t * s.t == tr(y), p <= rv(_m.pi), p > -rv(_m.pi)))
            E.assumed.add('math.atan2/sin/cos: polar angle in (-pi, pi]')
        return SR(p)
    def atan(self, x): return SR(core.E.uf('atan', 1)(tr(x))) if isinstance(x, Sym) else _m.atan(x)
    def exp(self, x):
        if not isinstance(x, Sym): return _m.exp(x)
        v = core.E.uf('exp', 1)(tr(x)); core.E.fact(v > 0); return SR(v)
    def log(self, x, *b): return SR(core.E.uf('log', 1)(tr(x))) if isinstance(x, Sym) else _m.log(x, *b)
    def fabs(self, x): return abs(SR(tr(x))) if isinstance(x, Sym) else _m.fabs(x)
    def floor(self, x): return x.__floor__() if isinstance(x, Sym) else _m.floor(x)
    def ceil(self, x): return x.__ceil__() if isinstance(x, Sym) else _m.ceil(x)
    def radians(self, x): return x * (_m.pi / 180.) if isinstance(x, Sym) else _m.radians(x)
    def degrees(self, x): return x * (180. / _m.pi) if isinstance(x, Sym) else _m.degrees(x)
    def isnan(self, x): return False if isinstance(x, Sym) else _m.isnan(x)
    def isinf(self, x): return False if isinstance(x, Sym) else _m.isinf(x)
    def pow(self, a, b): return power(a, b) if isinstance(a, Sym) or isinstance(b, Sym) else _m.pow(a, b)
    def hypot(self, a, b): return power(a * a + b * b, 0.5) if isinstance(a, Sym) or isinstance(b, Sym) else _m.hypot(a, b)
    def factorial(self, n):
        return _m.factorial(int(n))
    def isclose(self, *a, **k): raise Unsupported("isclose")
