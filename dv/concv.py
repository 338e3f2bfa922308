"""Concrete side of the contract interface: runs on the real build with generated or replayed inputs."""
import math, random, io, os, sys, json
from .api import Skip, Violated

class MM:
    def __getattr__(self, n): return getattr(math, n)

class CFold:
    def __init__(self, name, init, step, np): self.name, self.init, self.step, self.np = name, init, step, np; self.memo = {}
    def at(self, k, *ps):
        k = int(k); key = (k,) + ps
        if key not in self.memo:
            v = self.init(*ps) if callable(self.init) else self.init
            for i in range(k): v = self.step(v, i, *ps)
            self.memo[key] = v
        return self.memo[key]

NICE = [0., 1., -1., 0.5, 2., -2.5, 3., 10., 100., -7., 1e-3, 0.25]

class ConcV:
    conc = True
    def __init__(self, rng, inputs=None, scratch='/tmp', tol=1e-7, maxn=5):
        self.rng, self.inputs = rng, inputs
        self.used = {}
        self.m = MM(); self.tol = tol; self.maxn = maxn
        self.checked = 0; self.scratch = scratch
        self.scale = rng.choice([1., 1., 10., 1000.])
        self._gw = None
    @property
    def np(self):
        import numpy; return numpy
    def _in(self, name, gen):
        if self.inputs is not None and name in self.inputs and self.inputs[name] is not None: v = self.inputs[name]
        else: v = gen()
        self.used[name] = v
        return v
    def _rnd(self, lo, hi):
        r = self.rng
        for _ in range(30):
            c = r.random()
            if lo is not None and hi is not None:
                span = float(hi) - float(lo)
                if c < 0.8: v = r.uniform(lo, hi)
                elif c < 0.85: v = float(lo)
                elif c < 0.9: v = float(hi)
                else: v = r.choice(NICE)
            elif lo is not None: v = lo + (abs(r.gauss(0, self.scale)) if c < 0.7 else abs(r.choice(NICE)))
            elif hi is not None: v = hi - (abs(r.gauss(0, self.scale)) if c < 0.7 else abs(r.choice(NICE)))
            else: v = r.gauss(0, self.scale) if c < 0.7 else r.choice(NICE)
            if (lo is None or v >= lo) and (hi is None or v <= hi): return float(v)
        raise Skip()
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, nz=False, gen=None):
        v = self._in(name, (lambda: gen(self.rng)) if gen else (lambda: self._rnd(lo, hi)))
        v = float(v)
        if lo is not None and (v < lo or (lo_open and v == lo)): raise Skip()
        if hi is not None and (v > hi or (hi_open and v == hi)): raise Skip()
        if nz and v == 0: raise Skip()
        return v
    def pos(self, name, hi=None): return self.real(name, 0, hi, lo_open=True)
    def integer(self, name, lo=None, hi=None):
        def g():
            a = -5 if lo is None else int(lo); b = (a + 10) if hi is None else int(hi)
            if b - a > 50 and self.rng.random() < 0.8:
                a2, b2 = max(a, -4), min(b, 9)
                if a2 <= b2: return self.rng.randint(a2, b2)
            if b < a: raise Skip()
            return self.rng.randint(a, b)
        v = int(self._in(name, g))
        if (lo is not None and v < lo) or (hi is not None and v > hi): raise Skip()
        return v
    def boolean(self, name): return bool(self._in(name, lambda: self.rng.random() < 0.5))
    def choice(self, name, opts):
        opts = list(opts); i = int(self._in(name, lambda: self.rng.randrange(len(opts))))
        if not 0 <= i < len(opts): raise Skip()
        return opts[i]
    def size(self, name, lo=0, hi=None):
        h = (lo + self.maxn) if hi is None else hi
        v = int(self._in(name, lambda: self.rng.randint(lo, max(lo, min(h, lo + self.maxn)))))
        if v < lo or v > 3000 or (hi is not None and v > hi): raise Skip()
        return v
    def seq(self, name, n, lo=None, hi=None, kind='R', gen=None, **k):
        def g():
            if gen: return gen(self.rng, n)
            if kind == 'I': return [self.rng.randint(-4 if lo is None else lo, 9 if hi is None else hi) for _ in range(n)]
            return [self._rnd(lo, hi) for _ in range(n)]
        v = list(self._in(name, g))
        while len(v) < n: v.append(self._rnd(lo, hi) if kind == 'R' else (lo or 0))
        v = v[:n]
        v = [float(x) if kind == 'R' else int(x) for x in v]
        self.used[name] = v
        return list(v)
    def vlist(self, n, fn): return [fn(i) for i in range(n)]
    def vec(self, name, n, lo=None, hi=None, **k): return [self.real('%s_%d' % (name, i), lo, hi, **k) for i in range(n)]
    def ufun(self, name, nargs, ret='R'):
        seed = self._in('uf_' + name, lambda: self.rng.randint(0, 10**6))
        a = random.Random(seed); cs = [a.uniform(-1, 1) for _ in range(nargs + 1)]; thr = a.uniform(-1, 1)
        kind = a.randrange(3)
        def f(*xs):
            v = cs[-1] + sum(c * x for c, x in zip(cs, xs))
            if kind == 1: v += 0.1 * sum(x * x for x in xs)
            return v if ret == 'R' else bool(v > thr)
        return f
    def mod(self, name):
        import importlib; return importlib.import_module(name)
    def assume(self, c):
        if not c: raise Skip()
    def attempt(self, f, *a, **k):
        try: return True, f(*a, **k)
        except Exception as ex: return False, ex
    def check(self, name, c, info=''):
        self.checked += 1
        if not bool(c): raise Violated(name, 'condition false ' + str(info))
    def _close(self, a, b, tol):
        if isinstance(a, complex) or isinstance(b, complex): return abs(a - b) <= tol * max(1., abs(a), abs(b))
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b): return a == b
        return abs(a - b) <= tol * max(1., abs(a), abs(b))
    def _eq(self, a, b, tol):
        import numbers
        if a is None or b is None: return a is b
        if isinstance(a, (bool,)) or isinstance(b, bool): return bool(a) == bool(b) and isinstance(a, type(b)) or (hasattr(a, 'dtype') and bool(a) == bool(b))
        if isinstance(a, str) or isinstance(b, str): return a == b
        if isinstance(a, numbers.Number) and isinstance(b, numbers.Number): return self._close(a, b, tol)
        if hasattr(a, 'tolist'): a = a.tolist()
        if hasattr(b, 'tolist'): b = b.tolist()
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self._eq(x, y, tol) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(self._eq(a[k], b[k], tol) for k in a)
        if isinstance(a, numbers.Number) and isinstance(b, numbers.Number): return self._close(a, b, tol)
        return a is b
    def eq(self, name, a, b, tol=None, info='', scale=None):
        self.checked += 1
        tol = self.tol if tol is None else tol
        if scale is not None:      # cancellation-prone comparison of numbers: absolute tolerance from the size of the terms
            if hasattr(a, 'tolist'): a = a.tolist()
            if hasattr(b, 'tolist'): b = b.tolist()
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if len(a) != len(b): raise Violated(name, 'got %s expected %s' % (short(a), short(b)))
                for x, y in zip(a, b): self.eq(name, x, y, tol, info, scale)
                return
            a0 = abs(a - b)
            if not ((math.isnan(a) and math.isnan(b)) or math.isnan(float(scale)) or a == b or a0 <= tol * max(abs(float(scale)), abs(a), abs(b), 1e-300)): raise Violated(name, 'got %s expected %s (scale %s) %s' % (short(a), short(b), short(scale), info))
            return
        if not self._eq(a, b, tol): raise Violated(name, 'got %s expected %s %s' % (short(a), short(b), info))
    def seq_eq(self, name, a, n, fn, tol=None):
        self.checked += 1
        if hasattr(a, 'tolist'): a = a.tolist()
        if not isinstance(a, (list, tuple)): raise Violated(name + '.is-list', 'got %s' % short(a))
        if len(a) != n: raise Violated(name + '.length', 'got %d expected %d' % (len(a), n))
        for i in range(n): self.eq(name + '.elements', a[i], fn(i), tol, 'at index %d' % i)
    def filter_eq(self, name, a, n, fn, pred):
        want = [fn(i) for i in range(n) if pred(i)]
        if not isinstance(a, list) or len(a) != len(want): raise Violated(name + '.length', 'got %s expected %s' % (short(a), short(want)))
        for x, y in zip(a, want): self.eq(name + '.elements', x, y)
        self.checked += 1
    def forall(self, name, n, fn):
        for i in range(int(n)): fn(i)
    def induct(self, *a, **k): pass
    def lemma(self, *a): return lambda *b: None
    def fn(self, g):
        t = list(g); return lambda i: t[i]
    def len(self, x): return len(x)
    def instantiate(self, i): pass
    def extreme(self, which, n, fn, pred=None):
        return (min if which == 'min' else max)([fn(i) for i in range(n) if pred is None or pred(i)])
    def exists(self, n, pred): return any(pred(i) for i in range(n))
    def perm(self, name='perm'): return None
    def raises(self, name, exc, f, *a, **k):
        ok, r = self.attempt(f, *a, **k)
        self.checked += 1
        if ok or not isinstance(r, exc): raise Violated(name, 'expected %s, got %s' % (exc, short(r)))
        return r
    def fold(self, name, init, step, nparams=0, sort='R', hint=True, real_params=False): return CFold(name, init, step, nparams)
    def foldval(self, f, k, *ps): return f.at(k, *ps)
    def hint(self, *a): pass
    def listhint(self, *a, **k): pass
    def prefixhint(self, *a, **k): pass
    def ghostkey(self, *a): pass
    def maphint(self, *a): pass
    def inst(self, *a): pass
    def sqrt(self, x): return math.sqrt(x)
    def absv(self, x): return abs(x)
    def ite(self, c, a, b): return a if c else b
    def and_(self, *c): return all(c)
    def or_(self, *c): return any(c)
    def not_(self, c): return not c
    def iff(self, a, b): return bool(a) == bool(b)
    def implies(self, a, b): return (not a) or bool(b)
    def toreal(self, x): return float(x)
    def floor(self, x): return math.floor(x)
    def list(self, xs): return list(xs)
    def matrix(self, rows):
        import numpy; return numpy.matrix([list(r) for r in rows])
    def array(self, rows):
        import numpy; return numpy.array([list(r) if isinstance(r, list) else r for r in rows])
    def trust(self, t): pass
    # hits
    DOUBLES = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'mass', 'bx', 'by', 'bz', 'ex', 'ey', 'ez', 'sx', 'sy', 'sz', 'path_length', 'proper_time', 'e_dep', 'charge']
    INTS = ['station', 'pid', 'status', 'spill', 'event_number', 'particle_number']
    def Hit(self):
        import xboa.hit; return xboa.hit.Hit
    def Bunch(self):
        import xboa.bunch; return xboa.bunch.Bunch
    def hit(self, prefix='h', only=None, **kw):
        h = self.Hit()(); hc = h._Hit__hitcore
        for f in self.DOUBLES:
            if f in kw: hc.set(f, float(kw[f]))
            elif only is None or f in only: hc.set(f, self.real('%s_%s' % (prefix, f)))
        for f in self.INTS:
            if f in kw: hc.set(f, int(kw[f]))
            elif only is None or f in only: hc.set(f, self.integer('%s_%s' % (prefix, f), -2**31, 2**31 - 1))
        if 'local_weight' in kw: hc.set('local_weight', float(kw['local_weight']))
        elif only is None or 'local_weight' in only: hc.set('local_weight', self.real(prefix + '_local_weight'))
        if kw.get('arbitrary_table', only is None):
            hc.set('global_weight', self.real(prefix + '_gw', gen=lambda r: r.choice([1., 0., 0.5, 2., 3.])))
        return h
    def arbitrary_table(self): pass
    def raw(self, h, f): return h._Hit__hitcore.get(f)
    def snapshot(self, h):
        hc = h._Hit__hitcore
        return {f: hc.get(f) for f in self.DOUBLES + self.INTS + ['local_weight']}
    def table(self, s, e, p):
        h = self.Hit()(); hc = h._Hit__hitcore
        hc.set('spill', int(s)); hc.set('event_number', int(e)); hc.set('particle_number', int(p))
        return hc.get('global_weight')
    def bunch(self, n, name='b', fields=('x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'mass'), gw=True, distinct_ids=False, bounds=None, gen=None):
        bounds = bounds or {}
        def g():
            out = []
            for i in range(n):
                d = {}
                for f in self.DOUBLES:
                    lo, hi = bounds.get(f, (None, None))
                    d[f] = self._rnd(lo, hi) if (f in fields) else (0.0 if f not in bounds else self._rnd(lo, hi))
                d['local_weight'] = self._rnd(*bounds['local_weight']) if 'local_weight' in bounds else self.rng.choice([1., 1., 0.5, 2., 0., 3.])
                for f in self.INTS:
                    d[f] = self.rng.randint(0, 3) if f in ('station', 'spill') else self.rng.choice([-13, 13, 11, 2212]) if f == 'pid' else self.rng.randint(0, 4)
                if distinct_ids: d['event_number'] = i
                d['global_weight'] = self.rng.choice([1., 1., 0.5, 2., 0.])
                out.append(d)
            if gen: gen(self.rng, out)
            return out
        data = [dict(d) for d in self._in(name, g)][:n]
        while len(data) < n: data.append(dict(data[-1]) if data else {f: 0 for f in self.DOUBLES + self.INTS + ['local_weight', 'global_weight']})
        B = self.Bunch(); H = self.Hit(); b = B()
        hs = []
        for d in data:
            h = H(); hc = h._Hit__hitcore
            for f, v in d.items():
                lo, hi = bounds.get(f, (None, None))
                if v is None: raise Skip()
                if (lo is not None and v < lo) or (hi is not None and v > hi): raise Skip()
                if f in self.INTS: hc.set(f, max(-2**31, min(2**31 - 1, int(v))))
                elif f != 'global_weight': hc.set(f, float(v))
            if 'global_weight' in d and gw: hc.set('global_weight', float(d['global_weight']))
            b.append(h); hs.append(h)
        return b, CFam(self, hs, data)
    # ---- the C++ extension
    def lib(self): return self.mod('xboa.core')
    def core_bunch(self, n, name='c', nulls=False):
        r = self.rng
        def g():
            out = []
            for i in range(n):
                if nulls and r.random() < 0.25: out.append(None); continue
                d = {f: self._rnd(None, None) for f in self.DOUBLES}
                d['local_weight'] = r.choice([1., 1., 0.5, 2., 0., 3.])
                for f in self.INTS: d[f] = r.randint(0, 2)
                out.append(d)
            return out
        data = list(self._in(name, g))[:n]
        while len(data) < n: data.append(dict(data[-1]) if data and data[-1] else {f: 0 for f in self.DOUBLES + self.INTS + ['local_weight']})
        L = self.lib(); bc = L.Bunchcore(); hs = []
        for i, d in enumerate(data):
            if d is None: hs.append(None); continue
            h = L.Hitcore()
            for f, v in d.items():
                if v is None: raise Skip()
                h.set(f, max(-2**31, min(2**31 - 1, int(v))) if f in self.INTS else float(v))
            hs.append(h); bc.set_item(h, i)
        while hs and hs[-1] is None: raise Skip()
        return bc, CCore(self, hs)
    def quot(self, a, b): return a / b if b else float('nan')
    def hitid(self, name, *tables):
        ids = [i for t in tables for i in t.ids]
        def g():
            r = self.rng.random()
            if ids and r < 0.5: return list(self.rng.choice(ids))
            if ids and r < 0.8:
                x = list(self.rng.choice(ids)); x[self.rng.randrange(3)] += self.rng.choice((-1, 1)); return x
            if r < 0.9: x = [self.rng.choice((0, 1, 2, -3)) for _ in range(3)]; return x
            return [self.rng.choice((-2**31, 2**31 - 1, 0, 7)) for _ in range(3)]
        return tuple(self._in(name, g))
    def weights(self, name='T'): return CWeights(self, name)
    def fileobj(self, text=''):
        f = io.StringIO(); f.write(text); f.seek(0)
        return CFile(text)
    def set_open(self, f): pass
    def patch(self, owner, attr, f):
        self._patches = getattr(self, '_patches', []); self._patches.append((owner, attr, owner.__dict__[attr] if isinstance(owner, type) else getattr(owner, attr)))
        setattr(owner, attr, f)
    def number(self, s): return float(s)
    def text(self, v): return str(v)
    def alias(self, k): return {'eventNumber': 'event_number', 'particleNumber': 'particle_number'}.get(k, k)
    def later(self, f): self._later = getattr(self, '_later', []) + [f]
    def det(self, m):
        import numpy; return float(numpy.linalg.det(numpy.array([[float(x) for x in r] for r in m])))
    def module(self, name):
        import importlib; return importlib.import_module(name)
    def cleanup(self):
        for f in getattr(self, '_later', []): f()
        self._later = []
        for o, a, v in reversed(getattr(self, '_patches', [])): setattr(o, a, v)
        self._patches = []

class CWeights:
    def __init__(self, V, name):
        r = V.rng
        def g():
            ids = [[r.choice((0, 1, 2, -1)) for _ in range(3)] for _ in range(r.randrange(0, 8))]
            return [r.choice((1.0, 0.0, 2.5, -1.5, 0.25)), [[i, r.choice((0.0, 1.0, round(r.uniform(-3, 3), 3)))] for i in ids]]
        self.default, l = V._in(name, g)
        self.d = {}
        self.wc = V.lib().WeightContext()
        self.wc.set_default_weight(self.default)
        for i, w in l: self.d[tuple(i)] = w; self.wc.set_weight(w, *i)
        self.ids = sorted(self.d)
    def key_at(self, *k): return self.at(*k)
    def has(self, s, e, p): return (s, e, p) in self.d
    def value(self, s, e, p): return self.d.get((s, e, p), 0.0)
    def at(self, s, e, p): return self.d.get((s, e, p), self.default)

class CFile(io.StringIO):
    def __init__(self, text=''): io.StringIO.__init__(self, text); self.seek(0, 2); self._w = True
    def readline(self, *a):
        if self._w: self.seek(0); self._w = False
        return io.StringIO.readline(self, *a)

class CFam:
    def __init__(self, V, hs, data):
        self.V, self.hs, self.n = V, hs, len(hs)
        self.data = [{f: h._Hit__hitcore.get(f) for f in V.DOUBLES + V.INTS + ['local_weight', 'global_weight']} for h in hs]
    def old(self, f, i): return self.data[i][f]
    def gw_old(self, i): return self.data[i]['global_weight']
    def weight_old(self, i): return self.data[i]['global_weight'] * self.data[i]['local_weight']
    def rd(self, f, i): return self.hs[i]._Hit__hitcore.get(f)
    def hit_at(self, i): return self.hs[int(i)]
    def core_at(self, i): return self.hs[int(i)]._Hit__hitcore

class CCore:
    def __init__(self, V, hs):
        self.hs = hs; self.n = len(hs)
        self.data = [None if h is None else {f: h.get(f) for f in V.DOUBLES + V.INTS + ['local_weight']} for h in hs]
    def old(self, v, i): return self.data[i][v] if self.data[i] else 0.
    def get(self, v, i): return self.hs[i].get(v) if self.hs[i] is not None else 0.
    def ident(self, i): return tuple(self.old(v, i) for v in ('spill', 'event_number', 'particle_number'))
    def null(self, i): return self.data[i] is None
    def hint(self, *a): pass

def short(x):
    s = repr(x); return s if len(s) < 300 else s[:300] + '...'
