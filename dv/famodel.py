"""A bunch of n hits with arbitrary contents: fields are functions of the hit index."""
import z3
from . import core
from .core import *
from .seqs import *
from . import coremodel
from .loops import Cell, same_val

class Fam:
    dv_model = True
    def __init__(self, V, name, n, fields=None, distinct_ids=False, bounds=None):
        self.V, self.name, self.n = V, name, n
        E = core.E
        self.fields = {}
        self.cache = {}; self.ccache = {}
        self.bounds = bounds or {}
        for f in coremodel.DOUBLES + ['local_weight']:
            self.fields[f] = self._mk(f, 'R')
        for f in coremodel.INTS: self.fields[f] = self._mk(f, 'I')
        self.orig = dict(self.fields)
        if distinct_ids:
            pass
        V.arbitrary_table()
        E.heap.append(self)
        if isinstance(n, int): pass
        def model(m):
            nn = n if isinstance(n, int) else mval(m, ti(n))
            out = []
            for i in range(min(nn, 40)):
                d = {}
                for f, fn in self.orig.items():
                    d[f] = mval(m, fn.uf(z3.IntVal(i)))
                g = E.shared.table0(d['spill'], d['event_number'], d['particle_number'])
                d['global_weight'] = mval(m, g.t)
                out.append(d)
            return out
        E.inputs[name] = (model, 'bunch')
    def _mk(self, f, s):
        u = z3.Function('%s_%s' % (self.name, f), z3.IntSort(), z3.RealSort() if s == 'R' else z3.IntSort())
        E = core.E
        b = self.bounds.get(f)
        def fn(i):
            t = u(ti(i))
            if b is not None:
                k = ('famb', t.get_id())
                if k not in E.facts_ids:
                    E.facts_ids.add(k); E.keep.append(t)
                    if b[0] is not None: E.fact(t >= b[0])
                    if b[1] is not None: E.fact(t <= b[1])
            return SR(t) if s == 'R' else SI(t)
        fn.uf = u
        return fn
    def rd(self, f, i): return self.fields[f](i)
    def wr(self, f, i, v):
        old = self.fields[f]
        self.fields[f] = lambda j, old=old, i=i, v=v: ite(ti(j) == ti(i), v, old(j))
    def old(self, f, i): return self.orig[f](i)
    def gw_old(self, i): return core.E.shared.table0(self.old('spill', i), self.old('event_number', i), self.old('particle_number', i))
    def weight_old(self, i): return self.gw_old(i) * self.old('local_weight', i)
    def core_at(self, i):
        k = z3.simplify(ti(i))
        key = k.get_id()
        if key not in self.ccache:
            m = core.E.shared.module
            self.ccache[key] = (m.Hitcore(FamStore(self, wrap(k))), k)
        return self.ccache[key][0]
    def hit_at(self, i):
        k = z3.simplify(ti(i)); key = k.get_id()
        if key not in self.cache:
            H = self.V.Hit(); h = H.__new__(H)
            h._Hit__hitcore = self.core_at(i)
            self.cache[key] = (h, k)
        return self.cache[key][0]
    def hits(self):
        if isinstance(self.n, int): return GList([self.hit_at(i) for i in range(self.n)])
        return GList(SSeq(self.n, self.hit_at, self))
    def cores(self):
        if isinstance(self.n, int): return GList([self.core_at(i) for i in range(self.n)])
        return GList(SSeq(self.n, self.core_at, self))
    def dv_cells(self, path):
        out = []
        for f in list(self.fields):
            c = FamCell(self, f, path + '.' + f)
            out.append(c)
        return out

class FamCell:
    kind = 'fam'; set = None
    def __init__(self, fam, f, key): self.fam, self.f, self.key = fam, f, key; self.fam_target = (fam.name, f)
    def get(self): return self.fam.fields[self.f]
    def put(self, v): self.fam.fields[self.f] = v
    def install(self, h, k, v0, tid):
        E = core.E
        if tid == 'famhavoc':
            s = z3.IntSort() if self.f in coremodel.INTS else z3.RealSort()
            u = z3.Function(E.fresh_name('hv_%s_%s' % (self.fam.name, self.f)), z3.IntSort(), s)
            E.tainted = True; E.notes.add('havoc field ' + self.f)
            self.fam.fields[self.f] = lambda j: wrap(u(ti(j)))
            return None
        new = lambda j, h=h, k=k, v0=v0: ite(ti(j) < k, h.fn(j), v0(j))
        self.fam.fields[self.f] = new
        return new
    def check(self, h, k, v0, tid, aux):
        E = core.E
        cur = self.fam.fields[self.f]
        if tid == 'same':
            if cur is v0: return True
            j = E.fresh_int('j'); E.assume(z3.And(j >= 0, j < ti(self.fam.n)))
            return same_val(cur(SI(j)), v0(SI(j)))
        if tid == 'famhavoc': return True
        j = E.fresh_int('j'); E.assume(z3.And(j >= 0, j < ti(self.fam.n)))
        E.assume(j != ti(k))
        ok = same_val(cur(SI(ti(k))), h.fn(SI(ti(k)))) and same_val(cur(SI(j)), ite(j < ti(k), h.fn(SI(j)), v0(SI(j))))
        E.inv_checked += ok
        return ok

class FamStore:
    dv_model = True
    __slots__ = ['fam', 'i']
    def __init__(self, fam, i): self.fam, self.i = fam, i
    def rd(self, f): return self.fam.rd(f, self.i)
    def wr(self, f, v): self.fam.wr(f, self.i, v)
class FamCore: pass
