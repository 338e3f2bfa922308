"""Contracts of the C++ extension (xboa.core) as used by the Python-level obligations.

Every clause stated here is an obligation of the C++ front end (properties P01, P05-P07, P09-P12) or is listed as assumed."""
import types
import z3
from . import core
from .core import *
from .seqs import *

DOUBLES = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'mass', 'bx', 'by', 'bz', 'ex', 'ey', 'ez', 'sx', 'sy', 'sz',
           'path_length', 'proper_time', 'e_dep', 'charge']
INTS = ['station', 'pid', 'status', 'spill', 'event_number', 'particle_number']
ALIAS = {'eventNumber': 'event_number', 'particleNumber': 'particle_number'}

NAMES = {'get': DOUBLES + ['local_weight', 'global_weight'] + INTS, 'set': []}

class Shared:
    """per path state of the extension: the global weight table"""
    def __init__(self):
        E = core.E
        f = z3.Function('gw0', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.table0 = lambda s, e, p: SR(f(ti(s), ti(e), ti(p)))
        self.fresh_table = True
        self.writes = []
        self.default = 1.0
        self.base = lambda s, e, p: 1.0
    def gw(self, s, e, p):
        v = self.base(s, e, p)
        for (ws, we, wp, wv) in self.writes:
            v = ite(z3.And(ti(ws) == ti(s), ti(we) == ti(e), ti(wp) == ti(p)), wv, v)
        return v
    def set_gw(self, s, e, p, v): self.writes.append((s, e, p, v))
    def dv_cells(self, path): return [TableCell(self, path + '.table')]
    def clear(self): self.writes = []; self.base = lambda s, e, p: 1.0

class TableCell:
    kind = 'fam'; set = None; fam_target = 'table'
    def __init__(self, sh, key): self.sh, self.key = sh, key
    def get(self): return (list(self.sh.writes), self.sh.base)
    def put(self, v): self.sh.writes, self.sh.base = list(v[0]), v[1]
    def install(self, h, k, v0, tid):
        E = core.E
        if tid == 'famhavoc':
            u = z3.Function(E.fresh_name('hv_table'), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
            E.tainted = True
            self.sh.base = lambda s, e, p: SR(u(ti(s), ti(e), ti(p)))
        else: self.sh.base = h.fn(wrap(z3.simplify(ti(k))))
        self.sh.writes = []
        return None
    def base_ok(self, h):
        from .loops import same_val
        E = core.E
        ids = [SI(E.fresh_int(n)) for n in ('ts', 'te', 'tp')]
        return same_val(self.sh.gw(*ids), h.fn(0)(*ids))
    def check(self, h, k, v0, tid, aux):
        E = core.E
        if tid == 'same': return self.sh.base is v0[1] and len(self.sh.writes) == len(v0[0])
        if tid == 'famhavoc': return True
        from .loops import same_val
        ids = [SI(E.fresh_int(n)) for n in ('ts', 'te', 'tp')]
        ok = same_val(self.sh.gw(*ids), h.fn(SI(z3.simplify(k + 1)))(*ids))
        E.inv_checked += ok
        return ok

def as_double(v):
    """PyFloat_AsDouble contract"""
    if isinstance(v, SR) or type(v) is float: return v
    if isinstance(v, SI): return SR(tr(v))
    if isinstance(v, bool): return float(v)
    if isinstance(v, int): return float(v)
    if hasattr(v, 'dtype') and getattr(v, 'ndim', 1) == 0: return float(v)
    if hasattr(v, '__float__') and not isinstance(v, (GList, SStr)): return float(v)
    raise TypeError("must be real number, not %s" % type(v).__name__)
def as_int(v):
    """PyLong_AsLong contract: floats are refused"""
    if isinstance(v, SI): return v
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if hasattr(v, '__index__') and not isinstance(v, Sym): return v.__index__()
    raise TypeError("'float' object cannot be interpreted as an integer")

def store_same(a, b):
    if a is b: return True
    fa, fb = getattr(a, 'fam', None), getattr(b, 'fam', None)
    if fa is None or fa is not fb: return False
    from .loops import same_val
    return same_val(a.i, b.i)

def make_module(front):
    m = types.ModuleType('xboa.core')
    E = core.E
    sh = Shared()
    E.shared = sh; E.heap.append(sh)

    class Store:
        """storage of one hit; fields: name -> value"""
        dv_model = True
        __slots__ = ['d', 'w']
        def __init__(self):
            self.d = {k: 0.0 for k in DOUBLES}
            self.d.update({k: 0 for k in INTS}); self.d['local_weight'] = 1.0
        def rd(self, n): return self.d[n]
        def wr(self, n, v): self.d[n] = v
    class FrozenStore(Store):
        __slots__ = []
        def wr(self, n, v): raise Unsupported("modification of a hit held by a list of symbolic length")
    Store.frozen = FrozenStore

    class Hitcore:
        dv_model = True
        def __init__(self, store=None): self.store = Store() if store is None else store
        @staticmethod
        def _key(k):
            if not isinstance(k, str): raise TypeError("argument must be str")
            return ALIAS.get(k, k)
        def get(self, key):
            k = self._key(key); s = self.store
            if k == 'local_weight' or k in DOUBLES or k in INTS: return s.rd(k)
            if k == 'global_weight': return sh.gw(s.rd('spill'), s.rd('event_number'), s.rd('particle_number'))
            if k == 'weight': return sh.gw(s.rd('spill'), s.rd('event_number'), s.rd('particle_number')) * s.rd('local_weight')
            raise ValueError("Failed to retrieve hitcore variable " + k)
        def set(self, key, value):
            k = self._key(key); s = self.store
            if k == 'local_weight' or k in DOUBLES: s.wr(k, as_double(value)); return
            if k in INTS: s.wr(k, as_int(value)); return
            if k == 'global_weight': sh.set_gw(s.rd('spill'), s.rd('event_number'), s.rd('particle_number'), as_double(value)); return
            raise ValueError("Failed to set hitcore variable " + k)
        @staticmethod
        def get_variables(): return GList(NAMES['get'])
        @staticmethod
        def set_variables(): return GList(NAMES['set'])
        @staticmethod
        def clear_global_weights(): sh.clear()
        @staticmethod
        def set_weight_context(c): raise Unsupported("weight context switch at the Python level")
        @staticmethod
        def get_weight_context(): raise Unsupported("weight context at the Python level")

    class Bunchcore:
        dv_model = True
        def __init__(self): self.items = GList(); self.summary = None
        def length(self): return self.items.length()
        def get_item(self, i): return self.items[i]
        def set_item(self, hc, i):
            n = self.items.length()
            if isinstance(i, (float, SR)): raise TypeError("integer argument expected")
            if bool(SB(ti(i) == ti(n))): self.items.append(hc); return
            self.items[i] = hc
        def del_item(self, i):
            del self.items[i]
        def moment(self, axes, means):
            h = E.moment_hook
            if h is None: raise Unsupported("Bunchcore.moment without contract")
            return h(self, axes, means)
        def index_by_power(self, max_size, n_axes):
            # contract P11: every multi-index up to the order exactly once, the zero index first
            def rec(k, left): return [[]] if k == 0 else [[i] + r for i in range(left + 1) for r in rec(k - 1, left - i)]
            if isinstance(max_size, Sym) or isinstance(n_axes, Sym): raise Unsupported("index_by_power of symbolic order")
            return GList([GList(r) for r in sorted(rec(n_axes, max_size))])
        def moment_tensor(self, axes, max_size):
            h = E.moment_hook
            if h is None: raise Unsupported("Bunchcore.moment_tensor without contract")
            axes = [str(a) for a in axes]
            return GList([h(self, [a for a, p in zip(axes, ix) for _ in range(p)], {}) if sum(ix) else 1. for ix in self.index_by_power(max_size, len(axes))])
        def covariance_matrix(self, axes, means):
            if not isinstance(means, dict): raise TypeError("argument 2 must be dict, not list")
            return GList([GList([self.moment(GList([a, b]), means) for b in axes]) for a in axes])
        def cut_double(self, variable, comparator, value, is_global):
            # contract P12: weight of exactly the hits with comparator(v, value) is set to zero
            n = self.items.length()
            if E.cut_hook is None: raise Unsupported("Bunchcore.cut_double without contract")
            E.cut_hook(self, variable, comparator, value, is_global)
    sh.module = m
    Hitcore.dv_same = lambda self, o: isinstance(o, Hitcore) and store_same(self.store, o.store)
    m.Hitcore = Hitcore; m.Bunchcore = Bunchcore; m.Store = Store
    class WeightContext: dv_model = True
    m.WeightContext = WeightContext
    m.__dict__['DOUBLES'] = DOUBLES; m.__dict__['INTS'] = INTS
    return m
