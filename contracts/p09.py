"""P09 moments, means and standard deviations"""
from dv.api import contract
from contracts.bunchlib import Moments
from contracts.corelib import Core
BUN = 'xboa/bunch/_bunch.py:Bunch.'
LISTS = [['x'], ['px', 'x'], ['energy', 't', 'local_weight'], ['x', 'x'], ['y', 'py', 'y', 'z']]

def centres(V, vs, how):
    d = {}
    for j, v in enumerate(vs):
        if how == 'all' or (how == 'first' and v == vs[0]):
            if v not in d: d[v] = V.real('centre_%s' % v, -10, 10)
    return d

def heavy(V, m):
    W = m.total()
    V.assume(V.absv(W) >= (1e-9 if not V.conc else 1e-3)); return W

@contract('P09', 'moment-compiled', [BUN + 'moment', BUN + 'mean', BUN + 'bunch_weight'], budget=200, tmo=20)
def mcore(V):
    n = V.size('n', 0 if not V.conc else 1)
    b, f = V.bunch(n)
    m = Moments(V, f, n); m.core(b); heavy(V, m)
    vs, how = V.choice('case', [(l, h) for l in LISTS for h in ('none', 'all', 'first')])
    c = centres(V, vs, how); c0 = dict(c); want = m.moment(vs, c0)
    got = b.moment(list(vs), c) if c or V.choice('explicit', [0, 1]) else b.moment(list(vs))
    V.eq('moment', got, want, scale=V.conc and scale(V, m, vs, c0) or None)
    V.eq('centres-kept', c, c0)

def scale(V, m, vs, c):
    """rounding scale of the sum"""
    s = 0.; W = 0.
    for i in range(m.n):
        p = 1.
        for v in vs: p *= abs(m.get(v, i)) + abs(c.get(v, 0.)) + (abs(m.mean(v)) if v not in c else 0.)
        s += p * abs(m.w(i)); W += abs(m.w(i))
    return 1e-300 + s / abs(m.total()) * (1 + W / abs(m.total()))

@contract('P09', 'moment-interpreted', [BUN + 'moment', BUN + 'mean', BUN + 'bunch_weight', BUN + 'get_hit_variable'], budget=200, tmo=20)
def mpy(V):
    """variables that the core does not have: derived and integer ones"""
    n = V.size('n', 0 if not V.conc else 1)
    b, f = V.bunch(n)
    def get(v, i):
        if v == 'r_squared': return f.old('x', i) * f.old('x', i) + f.old('y', i) * f.old('y', i)
        if v == 'pid' or v == 'station': return V.toreal(f.old(v, i)) if not V.conc else float(f.old(v, i))
        return f.old(v, i)
    m = Moments(V, f, n, get); m.core(b); heavy(V, m)
    vs, how = V.choice('case', [(l, h) for l in (['r_squared'], ['pid', 'x']) for h in ('none', 'all', 'first')])
    c = centres(V, vs, how); c0 = dict(c); want = m.moment(vs, c0)
    got = b.moment(list(vs), c) if c else b.moment(list(vs))
    V.eq('moment', got, want, scale=V.conc and scale(V, m, vs, c0) or None)
    V.eq('centres-kept', c, c0)

@contract('P09', 'no-weight', [BUN + 'moment', BUN + 'mean'])
def now(V):
    n = V.size('n')
    b, f = V.bunch(n)
    if V.conc:
        for i in range(n): b[i]['local_weight'] = 0.
    m = Moments(V, f, n); m.core(b)
    if not V.conc: V.assume(V.absv(m.total()) < 1e-9)
    vs = V.choice('vars', [['x'], ['x', 'px'], ['r']])
    V.raises('moment-refused', ZeroDivisionError, b.moment, list(vs))
    V.raises('mean-refused', ZeroDivisionError, b.mean, list(vs))

@contract('P09', 'mean', [BUN + 'mean', BUN + 'moment'], budget=100)
def mean(V):
    n = V.size('n', 0 if not V.conc else 1)
    b, f = V.bunch(n)
    m = Moments(V, f, n); m.core(b); heavy(V, m)
    vs = V.choice('vars', [['x'], ['px', 'x', 'energy'], ['x', 'x'], []])
    got = b.mean(list(vs))
    V.check('variables', set(got) == set(vs))
    for v in vs: V.eq('mean', got[v], m.mean(v), scale=V.conc and scale(V, m, [v], {v: 0.}) or None)

@contract('P09', 'standard-deviation', [BUN + 'standard_deviation', BUN + 'moment'], budget=100, tmo=20)
def sd(V):
    n = V.size('n', 0 if not V.conc else 1)
    b, f = V.bunch(n)
    m = Moments(V, f, n); m.core(b); heavy(V, m)
    how = V.choice('how', ['plain', 'list', 'number', 'dict', 'other-dict'])
    c = V.real('centre', -10, 10)
    cen = {'x': c} if how in ('number', 'dict') else {}
    want = m.moment(['x', 'x'], cen)
    V.assume(want > 0 if not V.conc else want > 1e-9 * scale(V, m, ['x', 'x'], cen))
    if how == 'plain': got = b.standard_deviation('x')
    elif how == 'list': got = b.standard_deviation(['x', 'y'])
    elif how == 'number': got = b.standard_deviation('x', c)
    elif how == 'dict': got = b.standard_deviation('x', {'x': c})
    else: got = b.standard_deviation('x', {'y': c})
    V.check('not-negative', got >= 0)
    V.eq('root-of-second-moment', got * got, want, scale=V.conc and scale(V, m, ['x', 'x'], cen) or None)

@contract('P09', 'weight', [BUN + 'bunch_weight'])
def wt(V):
    n = V.size('n')
    b, f = V.bunch(n)
    m = Moments(V, f, n)
    V.eq('sum-of-weights', b.bunch_weight(), m.total())

@contract('P09', 'order-and-zero-weights', [BUN + 'moment'], mode='bounded', runs=80, maxn=8)
def order(V):
    """the same moments from the hits in another order, and without the hits of zero weight"""
    n = V.size('n', 1)
    b, f = V.bunch(n)
    m = Moments(V, f, n); heavy(V, m)
    k = V.integer('k', 0, 1000)
    vs = V.choice('vars', LISTS + [['r_squared'], ['pid', 'x']])
    B = V.Bunch()
    a = list(b); V_ = b.moment(list(vs))
    import random; r = random.Random(k); r.shuffle(a)
    c = B()
    for h in a: c.append(h)
    if m.get.__name__ == '<lambda>' and all(v in f.data[0] for v in vs): s = scale(V, m, vs, {})
    else: s = 1e3
    V.eq('order', c.moment(list(vs)), V_, scale=s)
    d = B()
    for h in a:
        if h['weight'] != 0.: d.append(h)
    V.eq('zero-weights', d.moment(list(vs)), V_, scale=s)

CORE = 'xboa/core/cpplib/Bunchcore.cc:Bunchcore::'
CORELISTS = [[], ['x'], ['px', 'x'], ['energy', 't', 'local_weight'], ['y', 'py', 'y', 'z'], ['global_weight', 'weight']]
@contract('P09', 'core-moment', [CORE + 'get_moment', CORE + 'bunch_weight', 'xboa/core/pylib/PyBunchcore.cc:moment', 'xboa/core/cpplib/Hitcore.hh:Hitcore::total_weight'], budget=200, tmo=20)
def core_moment(V):
    C = Core(V)
    vs = V.choice('axes', CORELISTS); c = centres(V, vs, V.choice('centres', ['all', 'none', 'first']))
    def term(i):
        p = 1.
        for v in vs: p = p * (C.value(v, i) - c.get(v, 0.))
        return p
    def big(i):
        p = 1.
        for v in vs: p *= abs(C.value(v, i)) + abs(c.get(v, 0.))
        return p
    want = C.average('moment', term, raw=True)
    if not vs: V.induct('no-axes', C.n, lambda k: C.raw.at(k) == C.W.at(k))
    V.eq('moment', C.bc.moment(V.list(vs) if not V.conc else list(vs), c), want, scale=C.size(big))
    C.unchanged()
