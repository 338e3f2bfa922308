"""P01 every hit variable reads back what was written.  The numerical record (Hitcore, translated C++ in symbolic runs) and the
Python class on top of it."""
from dv.api import contract
PY = 'xboa/core/pylib/PyHitcore.cc:'
HC = 'xboa/core/cpplib/Hitcore.hh:Hitcore::'
HIT = 'xboa/hit/_hit.py:Hit.'
DOUBLES = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'bx', 'by', 'bz', 'ex', 'ey', 'ez', 'sx', 'sy', 'sz', 'path_length', 'proper_time', 'e_dep', 'charge', 'mass']
INTS = ['spill', 'event_number', 'particle_number', 'station', 'status', 'pid']
ALIAS = {'eventNumber': 'event_number', 'particleNumber': 'particle_number'}
IDENT = ['spill', 'event_number', 'particle_number']
READ = DOUBLES + ['local_weight', 'global_weight'] + INTS + sorted(ALIAS)

def write(V, h, values):
    for f in DOUBLES + ['local_weight']: h.set(f, values[f])
    for f in INTS: h.set(f, values[f])

def arbitrary(V, name):
    v = {f: V.real('%s_%s' % (name, f)) for f in DOUBLES + ['local_weight']}
    for f in INTS:
        v[f] = V.integer('%s_%s' % (name, f), -2**31, 2**31 - 1)
    return v

def ident(v): return tuple(v[f] for f in IDENT)

def same(V, a, b):
    return V.and_(*[x == y for x, y in zip(a, b)])

def identity(V, name, T, near=None):
    """an identity that is often one the table knows, or the other hit's"""
    if V.conc and near is not None and V.boolean(name + '_same'): return near
    return V.hitid(name, T)

def expect(V, tag, h, v, gw):
    for f in READ:
        c = ALIAS.get(f, f)
        V.eq('%s[%s]' % (tag, f), h.get(f), gw if c == 'global_weight' else v[c], tol=0.)
    V.eq(tag + '[weight]', h.get('weight'), v['local_weight'] * gw)

@contract('P01', 'record-set-get', [PY + 'get', PY + 'set'] + [HC + f for f in ('get_double', 'set_double', 'get_int', 'set_int', 'get_double_function')] + ['xboa/core/cpplib/Hitcore.cc:Hitcore::' + f for f in ('initialise_string_to_accessor_maps', 'initialise_string_to_mutator_maps')], budget=200)
def set_get(V):
    L = V.lib(); T = V.weights('T')
    L.Hitcore.set_weight_context(T.wc)
    name = V.choice('name', DOUBLES + ['local_weight', 'global_weight'] + INTS + sorted(ALIAS)); c = ALIAS.get(name, name)
    h, g = L.Hitcore(), L.Hitcore()
    vh, vg = arbitrary(V, 'h'), arbitrary(V, 'g')
    vh.update(zip(IDENT, identity(V, 'hid', T))); vg.update(zip(IDENT, identity(V, 'gid', T, ident(vh))))
    write(V, h, vh); write(V, g, vg)
    x = V.integer('value', -2**31, 2**31 - 1) if c in INTS else V.real('value')
    h.set(name, x)
    wh, wg = T.at(*ident(vh)), T.at(*ident(vg))
    if c == 'global_weight':
        wg = V.ite(same(V, ident(vh), ident(vg)), x, wg); wh = x
    else:
        vh[c] = x; wh = T.at(*ident(vh))
    expect(V, 'written', h, vh, wh)
    expect(V, 'other', g, vg, wg)

@contract('P01', 'record-new', [PY + '_alloc', PY + '_init', 'xboa/core/cpplib/Hitcore.cc:Hitcore::Hitcore'], budget=60)
def new_record(V):
    L = V.lib(); L.Hitcore.set_weight_context(L.WeightContext())
    other = L.Hitcore(); write(V, other, arbitrary(V, 'o'))
    h = L.Hitcore()
    expect(V, 'new', h, dict([(f, 0.) for f in DOUBLES] + [(f, 0) for f in INTS] + [('local_weight', 1.)]), 1.)

@contract('P01', 'record-integers', [PY + 'set', HC + 'set_double'], budget=60)
def integers(V):
    """an integer written to a real variable reads back as that number"""
    L = V.lib(); L.Hitcore.set_weight_context(V.weights('T').wc)
    h = L.Hitcore()
    f = V.choice('name', DOUBLES + ['local_weight', 'global_weight']); n = V.integer('n', -1000, 1000)
    h.set(f, n)
    V.eq(f, h.get(f), V.toreal(n), tol=0.)

@contract('P01', 'record-refused', [PY + 'get', PY + 'set'], budget=120)
def refused(V):
    L = V.lib(); T = V.weights('T'); L.Hitcore.set_weight_context(T.wc)
    h = L.Hitcore(); vh = arbitrary(V, 'h'); vh.update(zip(IDENT, identity(V, 'hid', T)))
    write(V, h, vh)
    case = V.choice('case', ['unknown', 'text', 'real-for-int', 'too-large', 'bad-key'])
    if case == 'unknown':
        for f in ('', 'X', 'xx', 'event', 'particle', 'total_weight', 'x ', 'Spill'):
            V.raises('get[%s]' % f, Exception, lambda: h.get(f))
            V.raises('set[%s]' % f, Exception, lambda: h.set(f, 1.))
            V.raises('seti[%s]' % f, Exception, lambda: h.set(f, 1))
        V.raises('set[weight]', Exception, lambda: h.set('weight', 1.))
    elif case == 'text':
        for f in DOUBLES + ['local_weight', 'global_weight'] + INTS + sorted(ALIAS):
            V.raises('set[%s]' % f, Exception, lambda: h.set(f, 'a'))
            V.raises('setnone[%s]' % f, Exception, lambda: h.set(f, None))
    elif case == 'real-for-int':
        for f in INTS + sorted(ALIAS): V.raises('set[%s]' % f, Exception, lambda: h.set(f, V.real('r')))
    elif case == 'too-large':
        n = V.integer('n', 2**31, 2**40)
        for f in INTS + sorted(ALIAS):
            V.raises('set[%s]' % f, Exception, lambda: h.set(f, n)); V.raises('set-[%s]' % f, Exception, lambda: h.set(f, -n - 1))
    else:
        V.raises('get.none', Exception, lambda: h.get(None)); V.raises('get.int', Exception, lambda: h.get(1)); V.raises('get.nothing', Exception, lambda: h.get())
        V.raises('set.nothing', Exception, lambda: h.set('x')); V.raises('set.many', Exception, lambda: h.set('x', 1., 2.))
    expect(V, 'unchanged', h, vh, T.at(*ident(vh)))

# ---- the Python class
def hit_expect(V, tag, h, v, gw):
    for f in READ:
        c = ALIAS.get(f, f)
        V.eq('%s[%s]' % (tag, f), h.get(f), gw if c == 'global_weight' else v[c], tol=0.)
        V.eq('%s.item[%s]' % (tag, f), h[f], gw if c == 'global_weight' else v[c], tol=0.)

@contract('P01', 'hit-set-get', [HIT + f for f in ('get', 'set', '__getitem__', '__setitem__')], budget=120)
def hit_set_get(V):
    name = V.choice('name', DOUBLES + ['local_weight', 'global_weight'] + INTS + sorted(ALIAS)); c = ALIAS.get(name, name)
    how = V.choice('how', ['set', 'item'])
    h, g = V.hit('h'), V.hit('g')
    vh, vg = V.snapshot(h), V.snapshot(g)
    wg = g.get('global_weight'); wh = V.table(*ident(vh))
    x = V.integer('value', -2**31, 2**31 - 1) if c in INTS else V.real('value')
    if how == 'set': h.set(name, x)
    else: h[name] = x
    if c == 'global_weight':
        wg = V.ite(same(V, ident(vh), ident(vg)), x, wg); wh = x
    else:
        vh[c] = x
        if c in IDENT: wh = V.table(*ident(vh))
    hit_expect(V, 'written', h, vh, wh); hit_expect(V, 'other', g, vg, wg)

@contract('P01', 'hit-new', [HIT + '__init__', HIT + 'get'], budget=60)
def hit_new(V):
    H = V.Hit(); V.lib().Hitcore.clear_global_weights() if V.conc else None
    h = H()
    for f in DOUBLES + INTS + sorted(ALIAS): V.eq('new[%s]' % f, h.get(f), 0., tol=0.)
    V.eq('new[local_weight]', h.get('local_weight'), 1., tol=0.)
    V.eq('new[global_weight]', h.get('global_weight'), 1., tol=0.)

@contract('P01', 'hit-refused', [HIT + 'get', HIT + 'set', HIT + '__getitem__', HIT + '__setitem__'], budget=120)
def hit_refused(V):
    h = V.hit('h'); vh = V.snapshot(h); w = h.get('global_weight')
    for f in ('X', 'xx', 'nonsense', 'x '):
        V.raises('get[%s]' % f, Exception, lambda: h.get(f)); V.raises('item[%s]' % f, Exception, lambda: h[f])
        V.raises('set[%s]' % f, Exception, lambda: h.set(f, 1.))
        def put(): h[f] = 1.
        V.raises('setitem[%s]' % f, Exception, put)
    for f in DOUBLES + ['local_weight', 'global_weight'] + INTS + sorted(ALIAS):
        V.raises('text[%s]' % f, Exception, lambda: h.set(f, 'a')); V.raises('none[%s]' % f, Exception, lambda: h.set(f, None))
    for f in INTS + sorted(ALIAS): V.raises('real[%s]' % f, Exception, lambda: h.set(f, V.real('r')))
    V.raises('weight', Exception, lambda: h.set('weight', 1.)) if 'weight' not in V.Hit().set_variables() else None
    hit_expect(V, 'unchanged', h, vh, w)
