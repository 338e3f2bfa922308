"""P12 cuts"""
from dv.api import contract
from contracts.bunchlib import Moments, Cut, DBL
from contracts.corelib import Core
from contracts.p09 import scale, heavy
import operator
BUN = 'xboa/bunch/_bunch.py:Bunch.'
OPS = [operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne]

def comparator(V):
    if not V.conc: return V.ufun('comparator', 2, 'B')
    return V.choice('comparator', OPS + [lambda a, b: abs(a - b) < 1.])

def check_cut(V, b, f, n, sel, glob, cut, extra=()):
    """sel(i): hit i is to be cut"""
    if V.conc:
        ids = lambda i: (f.old('spill', i), f.old('event_number', i), f.old('particle_number', i))
        dead = set(ids(i) for i in range(n) if sel(i))
        for i in range(n):
            V.eq('local-weight', f.rd('local_weight', i), 0. if (not glob and sel(i)) else f.old('local_weight', i))
            V.eq('global-weight', f.rd('global_weight', i), 0. if (glob and ids(i) in dead) else f.gw_old(i))
            for k in V.DOUBLES + V.INTS: V.eq('coordinates-kept', f.rd(k, i), f.old(k, i))
        return
    from dv.core import SI, SB, ti
    import z3
    E = V.E
    def one(i):
        for k in f.fields:
            if k != 'local_weight': V.eq('coordinates-kept', f.rd(k, i), f.old(k, i))
        if not glob: V.eq('local-weight', f.rd('local_weight', i), V.ite(sel(i), 0., f.old('local_weight', i)))
        else: V.eq('local-weight-kept', f.rd('local_weight', i), f.old('local_weight', i))
    V.forall('every-hit', n, one)
    s, e, p = V.integer('any_spill'), V.integer('any_event'), V.integer('any_particle')
    now = V.table(s, e, p)
    if not glob: V.eq('global-weights-kept', now, cut.base0(s, e, p)); return
    V.eq('table-is-the-ghost-table', now, cut.table(n)(s, e, p))
    # the ghost table is zero at the identity of every selected hit ...
    T = cut.T
    def sameid(i): a, b_, c = cut.ids(i); return V.and_(a == s, b_ == e, c == p)
    # ... and at no other identity
    if V.choice('lemma', ['zero', 'kept']) == 'zero':
        j = V.integer('selected', 0); V.assume(j < n); V.assume(V.and_(sel(j), sameid(j)))
        for d in (0, 1): T.inst(j + d, (s, e, p))
        V.induct('cut-weights-are-zero', n, lambda k: (T.inst(k, (s, e, p)), T.inst(k - 1, (s, e, p)), T.at(k, s, e, p) == 0.)[2], lo=j + 1)
        V.eq('cut-weight', now, 0.)
    else:
        E.demand(lambda i: E.fact(z3.Implies(z3.And(i >= 0, i < ti(n)), z3.Not(z3.And(V.and_(sel(SI(i)), sameid(SI(i))).t)))))
        def pred(k):
            V.instantiate(k - 1); V.instantiate(k); T.inst(k - 1, (s, e, p)); T.inst(k, (s, e, p))
            return T.at(k, s, e, p) == cut.base0(s, e, p)
        V.induct('other-weights-are-kept', n, pred)
        V.eq('other-weight', now, cut.base0(s, e, p))

def var_value(V, f, v, i):
    if v == 'r_squared': return f.old('x', i) * f.old('x', i) + f.old('y', i) * f.old('y', i)
    if v in ('pid', 'station', 'event_number'): return f.old(v, i)
    return f.old(v, i)

@contract('P12', 'cut', [BUN + 'cut', BUN + '_cut', BUN + 'list_get_hit_variable', BUN + 'get_hit_variable'], budget=200, tmo=20)
def cut(V):
    n = V.size('n')
    b, f = V.bunch(n)
    v, glob = V.choice('case', [(v, g) for v in ('x', 'energy', 'local_weight', 'r_squared', 'pid') for g in (False, True)])
    cmp_ = comparator(V); c = V.real('value', -100, 100)
    sel = lambda i: cmp_(var_value(V, f, v, i), c)
    if V.conc:
        for i in range(n): V.assume(v != 'r_squared' or abs(var_value(V, f, v, i) - c) > 1e-9 * (1 + abs(c)))
    k = Cut(V, f, n, sel, glob); k.core()
    V.listhint('values', lambda i: var_value(V, f, v, i))
    b.cut({v: c}, cmp_, global_cut=glob) if V.choice('keywords', [0, 1]) else b.cut({v: c}, cmp_, False, glob)
    check_cut(V, b, f, n, sel, glob, k)

@contract('P12', 'cut-in-sigma', [BUN + 'cut', BUN + '_cut', BUN + 'moment', BUN + 'mean'], budget=200, tmo=20)
def cuts(V):
    n = V.size('n', 0 if not V.conc else 1)
    b, f = V.bunch(n)
    v, glob = V.choice('case', [(v, g) for v in ('x', 'r_squared', 'station') for g in (False, True)])
    cmp_ = comparator(V); c = V.real('sigmas', -5, 5)
    get = lambda a, i: (V.toreal(var_value(V, f, a, i)) if not V.conc else float(var_value(V, f, a, i)))
    m = Moments(V, f, n, get); m.core(b); heavy(V, m)
    var = m.moment([v, v]); V.assume(var > (0 if not V.conc else 1e-9 * scale(V, m, [v, v], {})))
    sd = V.sqrt(var)
    sel = lambda i: cmp_(var_value(V, f, v, i), c * sd)
    if V.conc:
        for i in range(n): V.assume(abs(var_value(V, f, v, i) - c * sd) > 1e-6 * (1 + abs(c * sd) + scale(V, m, [v, v], {})))
    k = Cut(V, f, n, sel, glob); k.core()
    V.listhint('values', lambda i: var_value(V, f, v, i))
    b.cut({v: c}, cmp_, True, glob)
    check_cut(V, b, f, n, sel, glob, k)

@contract('P12', 'several-cuts', [BUN + 'cut'], mode='bounded', runs=60, maxn=12)
def several(V):
    """a cut in several variables selects a hit when any of them satisfies its comparison"""
    n = V.size('n')
    b, f = V.bunch(n)
    cmp_ = comparator(V)
    d = {v: V.real('value_' + v, -100, 100) for v in ('x', 'py', 'pid', 'pt')}
    sel = lambda i: any([cmp_(b[i][v], d[v]) for v in d])
    glob = V.choice('global', [False, True])
    V.assume(len(d) == 4)
    was = [sel(i) for i in range(n)]
    b.cut(d, cmp_, False, glob)
    check_cut(V, b, f, n, lambda i: was[i], glob, None)

CORE = 'xboa/core/cpplib/Bunchcore.cc:Bunchcore::'
@contract('P12', 'core-cut', [CORE + 'cut_double', 'xboa/core/pylib/PyBunchcore.cc:cut_double', 'xboa/core/utils/PythonComparator.hh:PythonComparator::compare', 'xboa/core/cpplib/Hitcore.hh:Hitcore::set_global_weight'], budget=300, tmo=20)
def core_cut(V):
    C = Core(V, heavy=False); f = C.f; n = C.n
    v, glob = V.choice('case', [(v, g) for v in ('x', 'energy', 'local_weight') for g in (False, True)] + [('global_weight', False), ('weight', False)])
    cmp_ = comparator(V); c = V.real('value', -100, 100)
    sel = lambda i: V.and_(V.not_(f.null(i)), cmp_(C.value(v, i), c))
    f.hint('cut', 'local_weight', lambda i: f.old('local_weight', i) if glob else V.ite(sel(i), 0., f.old('local_weight', i)))
    same = lambda a, b: V.and_(*[x == y for x, y in zip(a, b)])
    dead = V.fold('dead', 0, lambda a, i, s, e, p: V.ite(V.and_(sel(i), same(f.ident(i), (s, e, p))), 1, a), 3, sort='I', hint=False)
    def table(k, key, p, w):
        if not glob: return p, w
        key = C.T.ident_of(key)
        for d in (0, 1, 2): dead.inst(k - d, key)
        hit = dead.at(k, *key) > 0
        return V.or_(p, hit), V.ite(hit, 0., w)
    V.prefixhint('cut-table', table, 'cxxtable')
    C.bc.cut_double(v, cmp_, c, glob)
    def one(i):
        if V.conc and f.null(i): return
        for k in ('x', 'px', 'energy', 'mass', 'station', 'spill', 'event_number', 'particle_number'): V.eq('coordinates-kept', f.get(k, i), f.old(k, i), tol=0.)
        V.eq('local-weight', f.get('local_weight', i), f.old('local_weight', i) if glob else V.ite(sel(i), 0., f.old('local_weight', i)), tol=0.)
    V.forall('every-hit', n, one)
    any_ = V.hitid('any', C.T)
    now = C.T.wc.get_weight(*any_)
    if not glob: V.eq('table-kept', now, C.T.at(*any_), tol=0.); return
    if V.conc:
        V.eq('table', now, 0. if any(sel(i) and f.ident(i) == tuple(any_) for i in range(n)) else C.T.at(*any_), tol=0.); return
    V.eq('table', now, V.ite(dead.at(n, *any_) > 0, 0., C.T.at(*any_)))
