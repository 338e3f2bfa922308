"""P05 the global weight belongs to the particle identity, the local weight to the hit."""
from dv.api import contract
from contracts.corelib import Core
from contracts.p01 import ident, same, arbitrary, write, identity, IDENT, DOUBLES, INTS
W = 'xboa/core/cpplib/WeightContext.hpp:WeightContext::'
PYW = 'xboa/core/pylib/PyWeightContext.cc:'
PYH = 'xboa/core/pylib/PyHitcore.cc:'
HC = 'xboa/core/cpplib/Hitcore.hh:Hitcore::'
BU = 'xboa/bunch/_bunch.py:Bunch.'

def near(V, name, T, k):
    """another identity: often the same, often different in a single number"""
    if V.conc:
        r = V.rng.random()
        if r < 0.3: return k
        if r < 0.7:
            l = list(k); j = V.rng.randrange(3); l[j] = l[j] + (1 if l[j] < 0 else -1)
            return V._in(name, lambda: l) and tuple(V.used[name])
    return V.hitid(name, T)

WAYS = [lambda t, k: t.get_weight(*k), lambda t, k: t.get_weight(spill=k[0], event_number=k[1], particle_number=k[2]), lambda t, k: t.get_weight(k[0], k[1], particle_number=k[2]),
        lambda t, k: t.get_weight(particleNumber=k[2], eventNumber=k[1], spill=k[0]), lambda t, k: t.get_weight(k[0], particle_number=k[2], eventNumber=k[1])]
PUTS = [lambda t, w, k: t.set_weight(w, *k), lambda t, w, k: t.set_weight(weight=w, spill=k[0], event_number=k[1], particle_number=k[2]), lambda t, w, k: t.set_weight(w, k[0], k[1], particle_number=k[2]),
        lambda t, w, k: t.set_weight(w, particleNumber=k[2], eventNumber=k[1], spill=k[0]), lambda t, w, k: t.set_weight(w, k[0], particleNumber=k[2], event_number=k[1])]

@contract('P05', 'table-set-get', [PYW + f for f in ('setWeight', 'getWeight', 'setDefaultWeight', 'getDefaultWeight')] + [W + f for f in ('setWeight', 'getWeight', 'setDefaultWeight', 'getDefaultWeight')], budget=120)
def table(V):
    T, U = V.weights('T'), V.weights('U')
    put, get = V.choice('put', list(range(5))), V.choice('get', list(range(5)))
    k = V.hitid('k', T); m = near(V, 'm', T, k); q = near(V, 'q', T, m)
    V.eq('before', WAYS[get](T.wc, q), T.at(*q), tol=0.)
    w, w2, d = V.real('w'), V.real('w2'), V.real('d')
    PUTS[put](T.wc, w, k)
    V.eq('one.written', WAYS[get](T.wc, k), w, tol=0.)
    V.eq('one.any', WAYS[get](T.wc, q), V.ite(same(V, q, k), w, T.at(*q)), tol=0.)
    PUTS[put](T.wc, w2, m)
    want = V.ite(same(V, q, m), w2, V.ite(same(V, q, k), w, T.at(*q)))
    V.eq('two.any', WAYS[get](T.wc, q), want, tol=0.)
    V.eq('default', T.wc.get_default_weight(), T.default, tol=0.)
    T.wc.set_default_weight(d)
    V.eq('default.new', T.wc.get_default_weight(), d, tol=0.)
    V.eq('default.any', WAYS[get](T.wc, q), V.ite(same(V, q, m), w2, V.ite(same(V, q, k), w, V.ite(T.has(*q), T.value(*q), d))), tol=0.)
    V.eq('other-table', U.wc.get_weight(*q), U.at(*q), tol=0.)

@contract('P05', 'table-new', [PYW + '_alloc', PYW + '_init'], budget=60)
def table_new(V):
    t = V.lib().WeightContext(); k = V.hitid('k')
    V.eq('default', t.get_default_weight(), 1., tol=0.); V.eq('any', t.get_weight(*k), 1., tol=0.)

@contract('P05', 'identity-order', ['xboa/core/cpplib/WeightContext.hh:WeightContext::HitId::operator<'], sym_only=True, budget=60)
def order(V):
    """the ordering of the identities separates any two different ones (what std::map needs to keep them apart)"""
    if V.conc: V.assume(False)
    a, b, c = V.hitid('a'), V.hitid('b'), V.hitid('c')
    less = V.hitid_less()
    V.check('separates', V.or_(same(V, a, b), less(a, b), less(b, a)))
    V.check('irreflexive', V.not_(less(a, a)))
    V.check('asymmetric', V.implies(less(a, b), V.not_(less(b, a))))
    V.check('transitive', V.implies(V.and_(less(a, b), less(b, c)), less(a, c)))

@contract('P05', 'shared-by-identity', [HC + f for f in ('global_weight', 'set_global_weight', 'total_weight', 'local_weight', 'set_local_weight')] + [PYH + 'setWeightContext', PYH + 'getWeightContext'], budget=120)
def shared(V):
    L = V.lib(); T = V.weights('T'); L.Hitcore.set_weight_context(T.wc)
    k = V.hitid('k', T); m = near(V, 'm', T, k)
    h, g = L.Hitcore(), L.Hitcore()
    lh, lg = V.real('lh'), V.real('lg')
    for o, i, l in ((h, k, lh), (g, m, lg)):
        for f, x in zip(IDENT, i): o.set(f, x)
        o.set('local_weight', l)
    w, l = V.real('w'), V.real('l')
    how = V.choice('how', ['hit', 'table', 'selected-table', 'local'])
    if how == 'hit': h.set('global_weight', w)
    elif how == 'table': T.wc.set_weight(w, *k)
    elif how == 'selected-table': L.Hitcore.get_weight_context().set_weight(w, *k)
    else: h.set('local_weight', l); lh = l; w = T.at(*k)
    wg = V.ite(same(V, k, m), w, T.at(*m))
    V.eq('own.global', h.get('global_weight'), w, tol=0.); V.eq('other.global', g.get('global_weight'), wg, tol=0.)
    V.eq('own.local', h.get('local_weight'), lh, tol=0.); V.eq('other.local', g.get('local_weight'), lg, tol=0.)
    V.eq('own.total', h.get('weight'), lh * w); V.eq('other.total', g.get('weight'), lg * wg)
    V.eq('table.own', T.wc.get_weight(*k), w, tol=0.); V.eq('table.other', L.Hitcore.get_weight_context().get_weight(*m), wg, tol=0.)
    # a hit that changes its identity reads the weight of the new one
    for f, x in zip(IDENT, m): h.set(f, x)
    V.eq('moved.global', h.get('global_weight'), wg, tol=0.); V.eq('moved.local', h.get('local_weight'), lh, tol=0.)
    V.eq('moved.old-identity', T.wc.get_weight(*k), w, tol=0.)

@contract('P05', 'cleared', [PYH + 'clear_global_weights', 'xboa/core/cpplib/Hitcore.cc:Hitcore::clear_global_weights', W + 'clearWeights'], budget=60)
def cleared(V):
    L = V.lib(); T, U = V.weights('T'), V.weights('U'); L.Hitcore.set_weight_context(T.wc)
    k = V.hitid('k', T, U); h = L.Hitcore(); l = V.real('l')
    for f, x in zip(IDENT, k): h.set(f, x)
    h.set('local_weight', l)
    if V.boolean('written'): h.set('global_weight', V.real('w'))
    L.Hitcore.clear_global_weights()
    V.eq('global', h.get('global_weight'), T.default, tol=0.); V.eq('local', h.get('local_weight'), l, tol=0.)
    V.eq('table', T.wc.get_weight(*k), T.default, tol=0.); V.eq('default', T.wc.get_default_weight(), T.default, tol=0.)
    V.eq('other-table', U.wc.get_weight(*k), U.at(*k), tol=0.)

@contract('P05', 'table-selected', [PYH + 'setWeightContext', PYH + 'getWeightContext'], budget=60)
def selected(V):
    L = V.lib(); T, U = V.weights('T'), V.weights('U'); S = L.Hitcore
    k = V.hitid('k', T, U); l = V.real('l')
    S.set_weight_context(T.wc)
    h = L.Hitcore()
    for f, x in zip(IDENT, k): h.set(f, x)
    h.set('local_weight', l)
    V.eq('first', h.get('global_weight'), T.at(*k), tol=0.)
    S.set_weight_context(U.wc)
    V.eq('second', h.get('global_weight'), U.at(*k), tol=0.); V.eq('second.total', h.get('weight'), l * U.at(*k))
    V.eq('second.selected', S.get_weight_context().get_weight(*k), U.at(*k), tol=0.)
    w = V.real('w'); h.set('global_weight', w)
    V.eq('written', U.wc.get_weight(*k), w, tol=0.); V.eq('not-written', T.wc.get_weight(*k), T.at(*k), tol=0.)
    old = S.get_weight_context()
    S.set_weight_context(T.wc)
    V.eq('back', h.get('global_weight'), T.at(*k), tol=0.)
    V.eq('handle', old.get_weight(*k), w, tol=0.)
    V.eq('back.table', U.wc.get_weight(*k), w, tol=0.)
    for bad in (None, 1., 'text', h): V.raises('refused', Exception, lambda: S.set_weight_context(bad))
    V.eq('still', h.get('global_weight'), T.at(*k), tol=0.)

# ---- Python level
@contract('P05', 'hit-level', ['xboa/hit/_hit.py:Hit.' + f for f in ('get', 'set', 'get_weight', 'get_global_weight', 'set_global_weight', 'get_local_weight', 'set_local_weight', 'clear_global_weights')], budget=120)
def hit_level(V):
    H = V.Hit(); h, g = V.hit('h'), V.hit('g')
    vh, vg = V.snapshot(h), V.snapshot(g)
    if V.conc and V.rng.random() < 0.5:
        for f in IDENT: g.set(f, vh[f])
        vg = V.snapshot(g)
    wg = g.get('global_weight'); w = V.real('w')
    how = V.choice('how', ['set', 'item', 'method', 'local', 'local-method', 'clear'])
    if how == 'set': h.set('global_weight', w)
    elif how == 'method': h.set_global_weight(w)
    elif how == 'local-method': h.set_local_weight(w)
    elif how == 'item': h['global_weight'] = w
    elif how == 'local': h.set('local_weight', w)
    else: H.clear_global_weights()
    if how in ('set', 'item', 'method'):
        both = same(V, ident(vh), ident(vg))
        V.eq('own', h.get('global_weight'), w, tol=0.); V.eq('other', g.get('global_weight'), V.ite(both, w, wg), tol=0.)
    elif how == 'clear':
        V.eq('own', h.get('global_weight'), 1., tol=0.); V.eq('other', g.get('global_weight'), 1., tol=0.)
    else: V.eq('other', g.get('global_weight'), wg, tol=0.)
    V.eq('own.local', h.get('local_weight'), w if how in ('local', 'local-method') else vh['local_weight'], tol=0.); V.eq('other.local', g.get('local_weight'), vg['local_weight'], tol=0.)
    for o in (h, g):
        V.eq('total', o.get('weight'), o.get('global_weight') * o.get('local_weight')); V.eq('total.method', o.get_weight(), o.get('weight'))
        V.eq('global.method', o.get_global_weight(), o.get('global_weight'), tol=0.); V.eq('local.method', o.get_local_weight(), o.get('local_weight'), tol=0.)

@contract('P05', 'bunch-level', [BU + f for f in ('clear_local_weights', 'clear_global_weights', 'clear_weights', 'bunch_weight')], budget=120)
def bunch_level(V):
    n = V.size('n'); b, fam = V.bunch(n)
    how = V.choice('how', ['local', 'global', 'both', 'static'])
    V.prefixhint('cleared', lambda i: 1., (fam.name if not V.conc else '', 'local_weight'))
    if how == 'local': b.clear_local_weights()
    elif how == 'global': b.clear_global_weights()
    elif how == 'both': b.clear_weights()
    else: V.Bunch().clear_global_weights()
    def one(i):
        V.eq('local', fam.rd('local_weight', i), 1. if how in ('local', 'both') else fam.old('local_weight', i), tol=0.)
        V.eq('global', fam.hit_at(i).get('global_weight'), 1. if how != 'local' else fam.gw_old(i), tol=0.)
    V.forall('each', n, one)

# ---- statistics and cuts of a core use the selected table
CORE = 'xboa/core/cpplib/Bunchcore.cc:Bunchcore::'
@contract('P05', 'statistics-follow-the-table', [CORE + 'get_moment', CORE + 'bunch_weight', 'xboa/core/pylib/PyBunchcore.cc:moment', PYH + 'setWeightContext', HC + 'total_weight'], budget=200, tmo=20)
def statistics(V):
    """the same hits, first under one table and then under another one that is selected afterwards"""
    C = Core(V, nulls=False); U = V.weights('U'); D = C.under(U, 'weight-under-U')
    L = V.lib()
    term = lambda i: C.value('x', i)
    first = C.average('first', term, raw=True); second = D.average('second', term, raw=True)
    mean = lambda: C.bc.moment(V.list(['x']) if not V.conc else ['x'], {'x': 0.})
    order = V.choice('order', ['first-second', 'second-first-second'])
    if order == 'second-first-second':
        L.Hitcore.set_weight_context(U.wc); V.eq('second', mean(), second, scale=D.size(lambda i: abs(term(i))))
        L.Hitcore.set_weight_context(C.T.wc)
    else: V.eq('first', mean(), first, scale=C.size(lambda i: abs(term(i))))
    L.Hitcore.set_weight_context(U.wc)
    V.eq('second', mean(), second, scale=D.size(lambda i: abs(term(i))))
    C.unchanged()

@contract('P05', 'cut-writes-the-selected-table', [CORE + 'cut_double', 'xboa/core/pylib/PyBunchcore.cc:cut_double', PYH + 'setWeightContext', HC + 'set_global_weight'], budget=200, tmo=20)
def cut_table(V):
    """a global cut under one table leaves every weight of the other one"""
    C = Core(V, heavy=False); f, n = C.f, C.n; U = V.weights('U'); L = V.lib()
    c = V.real('value', -100, 100); sel = lambda i: V.and_(V.not_(f.null(i)), f.old('x', i) < c)
    L.Hitcore.set_weight_context(U.wc)
    dead = V.fold('dead', 0, lambda a, i, s, e, p: V.ite(V.and_(sel(i), same(V, f.ident(i), (s, e, p))), 1, a), 3, sort='I', hint=False)
    def table(k, key, p, w):
        key = U.ident_of(key)
        for d in (0, 1, 2): dead.inst(k - d, key)
        hit = dead.at(k, *key) > 0
        return V.or_(p, hit), V.ite(hit, 0., w)
    V.prefixhint('cut-table', table, 'cxxtable')
    C.bc.cut_double('x', lambda a, b: a < b, c, True)
    any_ = V.hitid('any', C.T, U)
    V.eq('other-table', C.T.wc.get_weight(*any_), C.T.at(*any_), tol=0.)
    cut = any(sel(i) and tuple(f.ident(i)) == tuple(any_) for i in range(n)) if V.conc else dead.at(n, *any_) > 0
    V.eq('selected-table', U.wc.get_weight(*any_), V.ite(cut, 0., U.at(*any_)), tol=0.)
    L.Hitcore.set_weight_context(C.T.wc)
    V.eq('selected-again', L.Hitcore.get_weight_context().get_weight(*any_), C.T.at(*any_), tol=0.)
    V.forall('local-kept', n, lambda i: None if V.conc and f.null(i) else V.eq('local', f.get('local_weight', i), f.old('local_weight', i), tol=0.))
