"""P13 selections"""
from dv.api import contract
from contracts.bunchlib import Cut
from contracts.p12 import check_cut
from contracts.bunchlib import Moments, Group
from contracts.p09 import scale, heavy
from contracts.p12 import comparator, var_value
BUN = 'xboa/bunch/_bunch.py:Bunch.'
VARS = ('x', 'energy', 'local_weight', 'r_squared', 'pid')

def untouched(V, f, n, weights=True):
    def one(i):
        for k in V.DOUBLES + V.INTS if V.conc else [k for k in f.fields if k != 'local_weight']: V.eq('coordinates-kept', f.rd(k, i), f.old(k, i))
        if weights: V.eq('local-weight-kept', f.rd('local_weight', i), f.old('local_weight', i))
    V.forall('every-hit', n, one)

@contract('P13', 'get-hits', [BUN + 'get_hits', BUN + 'get_hit_variable'], budget=100, tmo=20)
def get_hits(V):
    n = V.size('n')
    b, f = V.bunch(n)
    v = V.choice('variable', VARS)
    c = V.real('value', -100, 100) if not V.conc else V.choice('value', [0., 1., 0.5, -13, 13, 4.])
    how = V.choice('comparator-given', [0, 1])
    cmp_ = comparator(V) if how else (lambda x, y: x == y)
    pred = lambda i: cmp_(var_value(V, f, v, i), c)
    V.listhint('kept', f.hit_at, pred)
    got = b.get_hits(v, c, cmp_) if how else b.get_hits(v, c)
    V.filter_eq('hits', got, n, f.hit_at, pred)
    untouched(V, f, n)
    V.eq('bunch-length-kept', V.len(b), n)

@contract('P13', 'conditional-remove', [BUN + 'conditional_remove', BUN + 'list_get_hit_variable', BUN + 'standard_deviation', BUN + 'moment', BUN + 'mean'], budget=200, tmo=20)
def remove(V):
    n = V.size('n', 0 if not V.conc else 1)
    b, f = V.bunch(n)
    v, sig = V.choice('case', [(v, s) for v in VARS for s in (False, True) if not (s and v == 'local_weight')])
    cmp_ = comparator(V)
    get = lambda a, i: V.toreal(var_value(V, f, a, i))
    c = V.real('value', -5, 5)
    if sig:
        m = Moments(V, f, n, get); m.core(b); heavy(V, m)
        var = m.moment([v, v]); V.assume(var > (0 if not V.conc else 1e-9 * scale(V, m, [v, v], {})))
        cut = c * V.sqrt(var)
        if V.conc:
            for i in range(n): V.assume(abs(var_value(V, f, v, i) - cut) > 1e-6 * (1 + abs(cut) + scale(V, m, [v, v], {})))
    else:
        if V.conc and v in ('pid',): c = V.choice('pid-value', [-13., 13., 11.])
        cut = c
    pred = lambda i: V.not_(cmp_(var_value(V, f, v, i), cut))
    V.listhint('values', lambda i: var_value(V, f, v, i))
    V.listhint('kept', f.hit_at, pred)
    V.maphint('core-of-hit', lambda e: e[1]._Hit__hitcore if isinstance(e, tuple) else e._Hit__hitcore if hasattr(e, '_Hit__hitcore') else None)
    b.conditional_remove({v: c}, cmp_, True) if sig else b.conditional_remove({v: c}, cmp_)
    V.filter_eq('hits', b._Bunch__hits if not V.conc else [h for h in b], n, f.hit_at, pred)
    if not V.conc:
        hs = b._Bunch__hits
        V.seq_eq('core-follows-the-list', b._Bunch__bunchcore.items, V.len(hs), lambda i: hs[i]._Hit__hitcore)
    untouched(V, f, n)
    if V.conc:
        want = [i for i in range(n) if pred(i)]
        W = sum([f.weight_old(i) for i in want])
        if abs(W) > 1e-3: V.eq('core-follows', b.mean(['x'])['x'], sum([f.weight_old(i) * f.old('x', i) for i in want]) / W, scale=1 + sum([abs(f.weight_old(i) * f.old('x', i)) for i in want]) / abs(W))

@contract('P13', 'several-removals', [BUN + 'conditional_remove'], mode='bounded', runs=60, maxn=12)
def several(V):
    """several variables: a hit is removed when any comparison is true"""
    n = V.size('n')
    b, f = V.bunch(n)
    cmp_ = comparator(V)
    vs = V.choice('variables', [('x', 'py', 'pid'), ('pt', 'station'), ('r_squared', 'x', 'energy')])
    d = {v: V.real('value_' + v, -3, 3) for v in vs}
    keep = [not any([bool(cmp_(b[i][v], d[v])) for v in d]) for i in range(n)]
    b.conditional_remove(d, cmp_)
    V.filter_eq('hits', [h for h in b], n, f.hit_at, lambda i: keep[i])
    untouched(V, f, n)

@contract('P13', 'split', [BUN + 'split', BUN + 'append', BUN + '__init__'], budget=100, tmo=20)
def split(V):
    n = V.size('n')
    b, f = V.bunch(n)
    v = V.choice('variable', ['station', 'pid', 'x', 'r_squared'])
    def key(i):
        w = var_value(V, f, v, i)
        if V.conc: return int(w)
        return w if v in ('station', 'pid') else w.__trunc__()
    if V.conc:
        d = b.split(v)
        V.check('groups', set(d.keys()) == set([key(i) for i in range(n)]))
        for K in d: V.filter_eq('group', [h for h in d[K]], n, f.hit_at, lambda i: key(i) == K)
        V.eq('bunch-kept', len(b), n)
        for K in d:
            W = sum([f.weight_old(i) for i in range(n) if key(i) == K])
            if abs(W) > 1e-3: V.eq('group-core', d[K].mean(['x'])['x'], sum([f.weight_old(i) * f.old('x', i) for i in range(n) if key(i) == K]) / W, scale=1 + 1e3 / abs(W))
    else:
        K = V.integer('any_group')
        pred = lambda i: key(i) == K
        g = Group(V, f, pred)
        V.ghostkey(K, V.Bunch(), g)
        V.patch(V.Hit(), 'check', lambda self, *a: V.boolean('check'))
        V.trust('Hit.check has no effect on any hit')
        d = b.split(v)
        if K in d:
            V.filter_eq('group', d[K]._Bunch__hits, n, f.hit_at, pred)
            V.filter_eq('group-core', d[K]._Bunch__bunchcore.items, n, f.core_at, pred)
        else: V.forall('no-such-hit', n, lambda i: (V.instantiate(i), V.check('no-such-hit', V.not_(pred(i)))))
    untouched(V, f, n)

@contract('P13', 'transmission-sized', [BUN + 'transmission_cut'], budget=200, tmo=20, bound='every bunch; test bunches of up to 2 hits')
def trans_sized(V):
    """identifying values are whole numbers, or one real value that counts as equal within the rounding tolerance"""
    n = V.size('n')
    b, f = V.bunch(n)
    m, glob, var = V.choice('case', [(m, g, v) for m in (0, 1, 2) for g in (False, True) for v in ('event_number', ['station', 'pid'], 'x')])
    t = V.Bunch()(); ts = [V.hit('test%d' % j) for j in range(m)]
    for h in ts: t.append(h)
    vs = var if isinstance(var, list) else [var]
    tv = [[h[v] for v in vs] for h in ts]; tol = V.mod('xboa.common').float_tolerance
    def found(i):
        r = False
        for q in tv:
            if var == 'x': r = V.or_(r, abs(f.old('x', i) - q[0]) < tol)
            else: r = V.or_(r, V.and_(*[f.old(v, i) == a for v, a in zip(vs, q)]))
        return r
    if V.conc:
        mix = V.choice('mix', [0, 1, 2])
        for i in range(n):
            if m and i % 3 == mix:
                for v, a in zip(vs, tv[i % m]): b[i][v] = a + (tol * V.real('off', -0.9, 0.9) if v == 'x' else 0)
        cur = [[b[i][v] for v in vs] for i in range(n)]
        f_old = f.old
        f.old = lambda k, i: cur[i][vs.index(k)] if k in vs else f_old(k, i)
        gw = [b[i]['global_weight'] for i in range(n)]; f.gw_old = lambda i: gw[i]
        if var == 'x':
            for i in range(n):
                for q in tv: V.assume(abs(abs(cur[i][0] - q[0]) - tol) > 0.01 * tol)
    sel = lambda i: V.not_(found(i))
    k = Cut(V, f, n, sel, glob)
    b.transmission_cut(t, glob, list(var) if isinstance(var, list) else var)
    check_cut(V, b, f, n, sel, glob, k)
    for j in range(m):
        for v, a in zip(vs, tv[j]): V.eq('test-bunch-kept', ts[j][v], a, tol=0)

@contract('P13', 'transmission', [BUN + 'transmission_cut'], mode='bounded', runs=300, maxn=10)
def trans(V):
    n = V.size('n')
    b, f = V.bunch(n)
    m = V.size('m')
    t, g = V.bunch(m, 'test')
    for i in range(n): pass
    glob = V.choice('global', [False, True])
    var = V.choice('variables', [None, 'event_number', ['station', 'pid'], 'x', ['x', 'event_number']])
    vs = var if isinstance(var, list) else [var] if var else ['spill', 'event_number', 'particle_number']
    # make some real values agree
    mix = V.choice('mix', [0, 1, 2])
    for i in range(min(n, m)):
        if i % 3 == mix: t[i]['x'] = b[n - 1 - i]['x']; t[i]['event_number'] = b[n - 1 - i]['event_number']
    near = V.choice('near', [0, 0, 1]) and var == 'x'
    if near:
        # a value within the rounding tolerance of a test value counts as that value
        tol = V.mod('xboa.common').float_tolerance
        for i in range(min(n, m)):
            if i % 2 == mix % 2: b[i]['x'] = t[m - 1 - i]['x'] + tol * V.real('off', -0.9, 0.9)
    ids = lambda i: (f.old('spill', i), f.old('event_number', i), f.old('particle_number', i))
    gw = [b[i]['global_weight'] for i in range(n)]; old = [f.old('local_weight', i) for i in range(n)]
    tv = [tuple(h[v] for v in vs) for h in t]
    found = [tuple(b[i][v] for v in vs) in tv for i in range(n)]
    xs = [b[i]['x'] for i in range(n)]
    if near: found = [any([abs(x - q[0]) < tol * 0.99 for q in tv]) for x in xs]
    for i in range(n):
        if not found[i]: V.assume(all([max([abs(b[i][v] - x) for v, x in zip(vs, q)]) > 1e-3 for q in tv]))
    kw = {} if var is None else {'test_variable': list(var) if isinstance(var, list) else var}
    b.transmission_cut(t, glob, **kw) if glob else b.transmission_cut(t, **kw)
    gone = set(ids(i) for i in range(n) if not found[i])
    for i in range(n):
        V.eq('local-weight', b[i]['local_weight'], 0. if (not glob and not found[i]) else old[i])
        V.eq('global-weight', b[i]['global_weight'], 0. if (glob and ids(i) in gone) else gw[i])
        V.check('same-hit', b[i] is f.hit_at(i))
        for k in V.DOUBLES + V.INTS: V.eq('coordinates-kept', f.rd(k, i), xs[i] if k == 'x' else f.old(k, i), tol=0)
    for i in range(m): V.check('test-bunch-kept', tuple(t[i][v] for v in vs) == tv[i])
