"""Symbolic side of the contract interface: every check is a proof obligation."""
import sys, traceback, types, json, os
import z3
from . import core, api
from .core import *
from .core import Oblig
from .seqs import *
from .loops import extreme as loops_extreme, Hint, ListHint, PrefixHint, MapHint, FSeq, Poison, same_val, HList
from . import pyrt, npshim, coremodel
from .famodel import Fam, FamCore

class SymV:
    conc = False
    from .coremodel import DOUBLES, INTS
    def __init__(self, front, eng):
        self.front, self.E = front, eng
        self.m = front.math
        self.np = front.np
        self.uncaught = None
    # ---- inputs
    def _bounds(self, t, lo, hi, lo_open, hi_open):
        if lo is not None: self.E.assume(t > tr_or(lo, t) if lo_open else t >= tr_or(lo, t))
        if hi is not None: self.E.assume(t < tr_or(hi, t) if hi_open else t <= tr_or(hi, t))
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, nz=False, **k):
        t = z3.Real(name); self.E.inputs[name] = (t, 'real')
        self._bounds(t, lo, hi, lo_open, hi_open)
        if nz: self.E.assume(t != 0)
        return SR(t)
    def pos(self, name, hi=None): return self.real(name, 0, hi, lo_open=True)
    def integer(self, name, lo=None, hi=None):
        t = z3.Int(name); self.E.inputs[name] = (t, 'int'); self._bounds(t, lo, hi, False, False); return SI(t)
    def boolean(self, name):
        t = z3.Bool(name); self.E.inputs[name] = (t, 'bool'); return SB(t)
    def choice(self, name, opts):
        opts = list(opts); i = self.E.case(len(opts)); self.E.inputs[name] = (lambda m, i=i: i, 'choice'); return opts[i]
    def size(self, name, lo=0, hi=None): return self.integer(name, lo, hi)
    def seq(self, name, n, lo=None, hi=None, kind='R', ghost=None, **k):
        """list of n reals"""
        f = z3.Function(name, z3.IntSort(), z3.RealSort() if kind == 'R' else z3.IntSort())
        E = self.E
        def fn(i):
            t = f(ti(i))
            key = ('seqb', t.get_id())
            if (lo is not None or hi is not None) and key not in E.facts_ids:
                E.facts_ids.add(key); E.keep.append(t)
                if lo is not None: E.fact(t >= tr_or(lo, t))
                if hi is not None: E.fact(t <= tr_or(hi, t))
            return SR(t) if kind == 'R' else SI(t)
        def model(m):
            nn = n if isinstance(n, int) else mval(m, ti(n))
            return [mval(m, f(z3.IntVal(i))) for i in range(min(nn, 60))]
        E.inputs[name] = (model, 'seq')
        s = SSeq(n, fn)
        return GList(s) if not isinstance(n, int) else GList([fn(i) for i in range(n)])
    def vlist(self, n, fn):
        """a list of n elements, element i being fn(i)"""
        return GList(SSeq(n, fn)) if not isinstance(n, int) else GList([fn(i) for i in range(n)])
    def vec(self, name, n, lo=None, hi=None, **k):
        return [self.real('%s_%d' % (name, i), lo, hi, **k) for i in range(n)]
    def ufun(self, name, nargs, ret='R'):
        """an arbitrary function of real arguments (callbacks, comparators)"""
        f = self.E.uf(name, nargs, ret)
        def g(*a): return wrap(f(*[tr(x) for x in a]))
        return g
    # ---- program
    def mod(self, name):
        return self.front.load(name)
    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise PathEnd()
            return
        self.E.assume(c)
        if not self.E.feasible(): raise PathEnd()
    def attempt(self, f, *a, **k):
        try: return True, f(*a, **k)
        except Exception as ex:
            if pyrt.artefact(ex): raise Unsupported("outside the modelled values: %s" % ex)
            if isinstance(ex, (NameError,)) and not isinstance(ex, UnboundLocalError): pass
            if isinstance(ex, UnboundLocalError) and self.E.loopstack: raise Unsupported("local without loop invariant: %s" % ex)
            return False, ex
    # ---- obligations
    def check(self, name, c, info=''): self.E.check(name, c, info)
    def eq(self, name, a, b, tol=None, info='', scale=None):
        r = self._eq(a, b)
        if r is None: raise Unsupported("cannot compare %r with %r in %s" % (type(a), type(b), name))
        self.E.check(name, r, info)
    def _eq(self, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported("value without invariant in an obligation")
        if isnumlike(a) and isnumlike(b) and not isinstance(a, bool) and not isinstance(b, bool):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))
            if isinstance(a, (SI, int)) and isinstance(b, (SI, int)): return ti(a) == ti(b)
            return tr(a) == tr(b)
        if a is None or b is None: return a is b
        if isinstance(a, (bool, SB)) or isinstance(b, (bool, SB)):
            if not isinstance(a, (bool, SB)) or not isinstance(b, (bool, SB)): return False
            return tb(a) == tb(b)
        if isinstance(a, str) and isinstance(b, str): return a == b
        if hasattr(a, 'dtype') and hasattr(b, 'dtype'):
            if a.shape != b.shape: return False
            return self._all([self._eq(x, y) for x, y in zip(a.flat, b.flat)])
        if hasattr(a, 'dtype') and getattr(a, 'ndim', 0) > 0: a = a.tolist()
        if hasattr(b, 'dtype') and getattr(b, 'ndim', 0) > 0: b = b.tolist()
        if isinstance(a, (GList, list, tuple)) and isinstance(b, (GList, list, tuple)):
            pa, pb = as_parts(a), as_parts(b)
            if pa[0] is None and pb[0] is None:
                if len(pa[1]) != len(pb[1]): return False
                return self._all([self._eq(x, y) for x, y in zip(pa[1], pb[1])])
            raise Unsupported("use V.seq_eq for sequences of symbolic length")
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b): return False
            return self._all([self._eq(a[k], b[k]) for k in a])
        if type(a) is not type(b): return False
        if a is b: return True
        return None
    def _all(self, l):
        ts = []
        for x in l:
            if x is None: return None
            if isinstance(x, bool):
                if not x: return False
                continue
            ts.append(x)
        return z3.And(ts) if ts else True
    def seq_eq(self, name, a, n, fn):
        """a is a list of length n whose element i equals fn(i), for every i"""
        if isinstance(a, FSeq): self.check(name + '.length', False); return
        if not isinstance(a, (GList, SSeq, list, tuple)): self.check(name + '.is-list', False); return
        g = a if isinstance(a, (GList, SSeq)) else GList(a)
        L = self.front.b_len(g)
        self.E.check(name + '.length', ti(L) == ti(n))
        self.forall(name, n, lambda i: self.eq(name + '.elements', g[i] if isinstance(g, GList) else g.fn(i), fn(i)))
    def filter_eq(self, name, a, n, fn, pred):
        """a == [fn(i) for i in range(n) if pred(i)]"""
        if isinstance(a, GList) and a.pre is not None and isinstance(a.pre, HList) and a.pre.hint.pred is not None and not a.tail:
            # installed by the loop rule under exactly this hint
            h = a.pre.hint
            self.E.check(name + '.base-length', ti(a.pre.k) == ti(n))
            self.E.check(name + '.prefix-empty', a.pre.p0 is None and not a.pre.t0)
            p1, f1 = h.pred, h.fn
        elif isinstance(a, FSeq):
            self.E.check(name + '.base-length', ti(a.base_n) == ti(n)); p1, f1 = a.cond, a.fn
        elif isinstance(a, GList) and a.pre is None and isinstance(n, int):
            want = [fn(i) for i in range(n) if bool(pred(i))]
            self.E.check(name + '.length', len(want) == len(a.tail))
            for x, y in zip(a.tail, want): self.eq(name + '.elements', x, y)
            return
        else:
            # shape not recognised: every element must be provably selected ... outside reach
            if isinstance(a, GList) and a.pre is None and not a.tail:
                self.forall(name, n, lambda i: self.check(name + '.none-selected', z3.Not(tb(pred(i)))))
                return
            raise Unsupported("filtered list of unrecognised shape in " + name)
        def one(i):
            c1 = p1(i); c1 = bool(c1)
            c2 = pred(i); c2 = bool(c2)
            self.E.check(name + '.selection', c1 == c2)
            if c1 and c2: self.eq(name + '.elements', f1(i), fn(i))
        self.forall(name, n, one)
    def forall(self, name, n, fn):
        if isinstance(n, int) and n <= 8:
            for i in range(n): fn(i)
            return
        E = self.E
        if E.choose(2) == 0:
            i = E.fresh_int('all'); E.assume(z3.And(i >= 0, i < ti(n)))
            if not E.feasible(): raise PathEnd()
            fn(SI(i))
            E.check(name + '.reached', True)
            raise PathEnd()
    def lemma(self, name, k, hyp, concl):
        """for all real arguments hyp(*a) implies concl(*a): proved once over fresh reals; returns use(*a), which assumes the instance at a"""
        E = self.E
        a = [SR(z3.Real('lem!%d' % i)) for i in range(k)]
        h, c = tb(hyp(*a)), tb(concl(*a))
        if (name, h.sexpr(), c.sexpr()) in E.lemmas: E.obl.setdefault(name, Oblig(name)).status = 'discharged'; E.obl[name].n += 1
        else:
            s, pc = E.s, E.pc                      # the lemma stands alone: no fact of the path is used
            E.s, E.pc = z3.Solver(), []
            try:
                E.fact(h); E.check(name, c)
                if E.obl[name].status == 'discharged': E.lemmas.add((name, h.sexpr(), c.sexpr()))
            finally: E.s, E.pc = s, pc
        return lambda *a: E.fact(z3.Implies(tb(hyp(*a)), tb(concl(*a))))
    def induct(self, name, n, pred, lo=0, params=(), step=None):
        """lemma by induction: pred(lo), and pred(k) => pred(k+1) for lo <= k < n; afterwards pred(n) may be used when n >= lo"""
        E = self.E
        c = E.choose(3)
        if c == 0:
            E.check(name + '.base', pred(wrap(ti(lo)))); raise PathEnd()
        if c == 1:
            k = E.fresh_int('ind'); E.assume(z3.And(k >= ti(lo), k < ti(n)))
            if not E.feasible(): raise PathEnd()
            for f in E.folds:
                if not f.pint:
                    for ps in list(f.used.values()): f.inst(SI(k), [SR(p) for p in ps])
                elif f.np == len(params): f.inst(SI(k), params)
            p = pred(SI(k)); E.assume(tb(p) if isinstance(p, Sym) else z3.BoolVal(bool(p)))
            if step is not None: step(SI(k))
            E.check(name + '.step', pred(SI(k + 1))); raise PathEnd()
        p = pred(wrap(ti(n)))
        E.fact(z3.Implies(ti(n) >= ti(lo), tb(p) if isinstance(p, Sym) else z3.BoolVal(bool(p))))
    def fn(self, g):
        """the present content of a list as a function of the index"""
        return g.seq().fn if isinstance(g, GList) else (lambda i, t=list(g): conc_at(t, i))
    def len(self, x): return self.front.b_len(x)
    def instantiate(self, i): self.E.instantiate(i)
    def extreme(self, which, n, fn, pred=None):
        if pred is not None: s = FSeq(n, fn, pred)
        else: s = SSeq(n, fn)
        return loops_extreme(s, which)
    def exists(self, n, pred):
        E = self.E
        if E.choose(2) == 0:
            w = E.fresh_int('ex'); E.assume(z3.And(w >= 0, w < ti(n), tb(pred(SI(w)))))
            if not E.feasible(): raise PathEnd()
            E.instantiate(w); return True
        E.demand(lambda i: E.fact(z3.Implies(z3.And(i >= 0, i < ti(n)), z3.Not(tb(pred(SI(i)))))))
        return False
    def perm(self, name='perm'):
        p = Perm(name); self.E.perms.append(p); return p
    def raises(self, name, exc, f, *a, **k):
        ok, r = self.attempt(f, *a, **k)
        self.E.check(name, (not ok) and isinstance(r, exc), 'got %r' % (r,))
        return None if ok else r
    # ---- ghost state
    def fold(self, name, init, step, nparams=0, sort='R', hint=True, real_params=False):
        f = Fold(name, (lambda *p: init) if not callable(init) else init, step, nparams, sort=sort, pint=not real_params)
        self.E.folds.append(f)
        if hint: self.E.hints.append(Hint(name, None, f))
        return f
    def foldval(self, f, k, *ps): return f.at(k, *ps)
    def hint(self, name, fn): self.E.hints.append(Hint(name, fn))
    def listhint(self, name, fn, pred=None): self.E.hints.append(ListHint(name, fn, pred))
    def prefixhint(self, name, fn, target=None): self.E.hints.append(PrefixHint(name, fn, target))
    def maphint(self, name, fn): self.E.hints.append(MapHint(name, fn))
    def ghostkey(self, K, factory, hint):
        """dictionaries with symbolic keys are tracked at the arbitrary key K only"""
        self.E.ghostkey = (K, factory); self.E.hints.append(PrefixHint('group', hint, 'kdict'))
    def inst(self, f, k, *ps): f.inst(k, ps)
    # ---- math
    def sqrt(self, x): return self.m.sqrt(x)
    def absv(self, x): return SR(z3.If(tr(x) >= 0, tr(x), -tr(x))) if isinstance(x, Sym) else abs(x)
    def ite(self, c, a, b): return ite(tb(c), a, b) if isinstance(c, Sym) else (a if c else b)
    def and_(self, *cs): return SB(z3.And([tb(c) for c in cs]))
    def or_(self, *cs): return SB(z3.Or([tb(c) for c in cs]))
    def not_(self, c): return SB(z3.Not(tb(c)))
    def implies(self, a, b): return SB(z3.Implies(tb(a), tb(b)))
    def iff(self, a, b): return SB(tb(a) == tb(b))
    def toreal(self, x): return SR(tr(x))
    def floor(self, x): return x.__floor__() if isinstance(x, Sym) else __import__('math').floor(x)
    def list(self, xs): return GList(xs)
    def matrix(self, rows): return self.np.matrix(GList([GList(r) for r in rows]))
    def array(self, rows): return self.np.array(GList([GList(r) if isinstance(r, (list, GList)) else r for r in rows]))
    def trust(self, text): self.E.assumed.add(text)
    # ---- hits / bunches
    def Hit(self): return self.front.load('xboa.hit').Hit
    def Bunch(self): return self.front.load('xboa.bunch').Bunch
    def hit(self, prefix='h', only=None, **kw):
        """a hit with arbitrary contents (fields named prefix_x ...)"""
        H = self.Hit()
        h = H()
        st = getattr(h, '_Hit__hitcore').store
        for f in coremodel.DOUBLES:
            if f in kw: st.d[f] = kw[f]
            elif only is None or f in only: st.d[f] = self.real('%s_%s' % (prefix, f))
        for f in coremodel.INTS:
            if f in kw: st.d[f] = kw[f]
            elif only is None or f in only: st.d[f] = self.integer('%s_%s' % (prefix, f), -2**31, 2**31 - 1)
        if 'local_weight' in kw: st.d['local_weight'] = kw['local_weight']
        elif only is None or 'local_weight' in only: st.d['local_weight'] = self.real(prefix + '_local_weight')
        if kw.get('arbitrary_table', only is None): self.arbitrary_table()
        return h
    def arbitrary_table(self):
        """the process-wide weight table holds arbitrary values"""
        sh = self.E.shared
        if sh.fresh_table:
            sh.fresh_table = False
            sh.base = sh.table0
    def raw(self, h, f): return getattr(h, '_Hit__hitcore').store.rd(f)
    def snapshot(self, h):
        st = getattr(h, '_Hit__hitcore').store
        return {f: st.rd(f) for f in coremodel.DOUBLES + coremodel.INTS + ['local_weight']}
    def table(self, s, e, p): return self.E.shared.gw(s, e, p)
    def bunch(self, n, name='b', fields=('x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'mass'), gw=True, **k):
        B = self.Bunch(); b = B()
        fam = Fam(self, name, n, fields, **k)
        hits = fam.hits()
        setattr(b, '_Bunch__hits', hits)
        bc = getattr(b, '_Bunch__bunchcore')
        bc.items = fam.cores()
        bc.fam = fam
        return b, fam
    # ---- the C++ extension (translated by dv/cxxfront.py)
    def lib(self):
        if getattr(self, '_lib', None) is None:
            from . import cxxrt
            self._lib = cxxrt.Lib(self.front)
        return self._lib
    def core_bunch(self, n, name='c', nulls=False):
        """a core (translated C++) of n hits with arbitrary contents; with nulls, any entry may be empty"""
        from . import cxxrt
        f = cxxrt.CoreFam(self, name, n, nulls)
        return f.bc, f
    def handles(self, n, name='h'):
        """a core of n entries with arbitrary pointers, and the counts of all records"""
        from . import cxxrt
        return cxxrt.HandleCore(self, name, n)
    def counts(self, what, name='h'):
        """the counts of all records of a kind ('Hitcore' or 'WeightContext')"""
        from . import cxxrt
        return cxxrt.Handles(self, name, what, ['WeightContext', 'Hitcore', 'Bunchcore'])
    def quot(self, a, b):
        """a / b, unspecified (but some number) when b is zero"""
        return SR(tr(a) / tr(b))
    def hitid(self, name, *tables):
        r = tuple(self.integer(name + x, -2**31, 2**31 - 1) for x in ('_s', '_e', '_p'))
        self.ids = getattr(self, 'ids', []) + [r]
        self.E.inputs[name] = (lambda m: [mval(m, ti(x)) for x in r], 'seq')
        return r
    def hitid_less(self):
        """the ordering of the key type of the weight map, on (spill, event, particle)"""
        L = self.lib(); L.WeightContext
        m = L.fn('wc', 'WeightContext::HitId::HitId'); less = L.fn('wc', 'WeightContext::HitId::operator<'); rt = L.rts['wc']
        C = rt.cls('WeightContext::HitId')
        return lambda a, b: less(rt.new(C, m, *a), rt.new(C, m, *b))
    def weights(self, name='T'):
        """a weight table with arbitrary contents"""
        return SymWeights(self, name)
    def fileobj(self, text=''):
        return SymFile(self, text)
    def set_open(self, f): self.E.open_hook = f
    def number(self, s): return pyrt.S_float(s)
    def text(self, v): return SStr([v])
    def alias(self, k): return {'eventNumber': 'event_number', 'particleNumber': 'particle_number'}.get(k, k)
    def later(self, f): pass                     # every path loads the code anew
    def det(self, m):
        from .npshim import det
        import numpy
        a = numpy.empty((len(m), len(m)), dtype=object)
        for i in range(len(m)):
            for j in range(len(m)): a[i, j] = m[i][j]
        return det(a)
    def module(self, name): return self.front.load(name)
    def patch(self, owner, attr, f):
        self.E.tainted = True       # a refutation relative to a callee contract alone is not believed without a replay
        setattr(owner, attr, f)

class SymWeights:
    def __init__(self, V, name):
        from . import cxxrt
        L = V.lib(); ismap = lambda o: isinstance(o, cxxrt.SMap)
        probe = L.WeightContext(); probe.set_weight(5.0, 1, 2, 3)
        m = L.reach(probe, ismap)
        if m is None: raise Unsupported("no map of weights found inside a WeightContext")
        k = m.w[-1][0] if m.w else (1, 2, 3)
        self.order = [x - 1 for x in k] if sorted(x for x in k if isinstance(x, int)) == [1, 2, 3] else [0, 1, 2]
        self.V, self.name = V, name
        I, R = z3.IntSort(), z3.RealSort()
        n = V.E.fresh_name(name)
        self.P = z3.Function(n + '_has', I, I, I, z3.BoolSort()); self.F = z3.Function(n + '_w', I, I, I, R)
        self.wc = L.WeightContext()
        self.default = V.real(name + '_default')
        self.wc.set_default_weight(self.default)
        m = L.reach(self.wc, ismap)
        inv = [self.order.index(i) for i in range(3)]
        m.p0 = lambda k: SB(self.P(*[ti(k[inv[i]]) for i in range(3)])); m.v0 = lambda k: SR(self.F(*[ti(k[inv[i]]) for i in range(3)])); m.w = []
        def model(m):
            out = [mval(m, tr(self.default)), []]
            for k in getattr(V, 'ids', []):
                if z3.is_true(m.eval(self.P(*[ti(x) for x in k]), model_completion=True)):
                    out[1].append([[mval(m, ti(x)) for x in k], mval(m, self.F(*[ti(x) for x in k]))])
            return out
        V.E.inputs[name] = (model, 'seq')
    def key_at(self, *k):
        """the same by the key as the map holds it"""
        inv = [self.order.index(i) for i in range(3)]
        return self.at(*[k[inv[i]] for i in range(3)])
    def ident_of(self, k): inv = [self.order.index(i) for i in range(3)]; return tuple(k[inv[i]] for i in range(3))
    def has(self, s, e, p): return SB(self.P(ti(s), ti(e), ti(p)))
    def value(self, s, e, p): return SR(self.F(ti(s), ti(e), ti(p)))
    def at(self, s, e, p): return SR(z3.If(self.P(ti(s), ti(e), ti(p)), self.F(ti(s), ti(e), ti(p)), tr(self.default)))

class SymFile:
    dv_write = True
    def __init__(self, V, parts=()):
        self.V = V; self.w = SStr([parts] if isinstance(parts, str) and parts else []); self.closed = False; self.pos = None
    def write(self, s):
        if not isinstance(s, (str, SStr)): raise TypeError("write() argument must be str")
        self.w = self.w + s
    def _lines(self):
        lines = [[]]
        for p in self.w.parts:
            if isinstance(p, str):
                qs = p.split('\n')
                lines[-1].append(qs[0])
                for q in qs[1:]:
                    lines[-1].append('\n'); lines.append([q])
            else: lines[-1].append(p)
        if lines and all(q == '' for q in lines[-1]): lines.pop()
        out = []
        for l in lines:
            s = SStr(l)
            out.append(''.join(s.parts) if all(isinstance(q, str) for q in s.parts) else s)
        return out
    def readline(self):
        if self.pos is None: self.pos = 0; self._l = self._lines()
        if self.pos >= len(self._l): return ''
        self.pos += 1; return self._l[self.pos - 1]
    def __iter__(self): return self
    def __next__(self):
        l = self.readline()
        if isinstance(l, str) and l == '': raise StopIteration
        return l
    def readlines(self):
        out = []
        while True:
            l = self.readline()
            if isinstance(l, str) and l == '': return GList(out)
            out.append(l)
    def seek(self, n, w=0): self.pos = 0; self._l = self._lines()
    def close(self): self.closed = True
    def getvalue(self): return self.w

def tr_or(v, t):
    if isinstance(v, Sym): return v.t if t.is_int() == v.t.is_int() else (tr(v))
    return ti(v) if t.is_int() and isinstance(v, int) else rv(v)
