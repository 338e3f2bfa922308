"""P04 copies, dictionaries and pickles of hits"""
from dv.api import contract
HIT = 'xboa/hit/_hit.py:Hit.'
NAMES = None

def state(V, h):
    d = V.snapshot(h)
    d['global_weight'] = h.get('global_weight')
    return d

def same(V, name, h, want):
    got = state(V, h)
    for k in want: V.eq(name, got[k], want[k], **({'tol': 0} if V.conc else {}))

def ids(V, h): return tuple(V.raw(h, k) for k in ('spill', 'event_number', 'particle_number'))

def copier(V, how):
    H = V.Hit()
    if how == 'deepcopy': return lambda h: h.deepcopy()
    if how == 'copy-module':
        import copy
        return lambda h: (copy.deepcopy(h) if V.conc else V.front.copymod.deepcopy(h))
    if how == 'dict': return lambda h: H.new_from_dict(h.dict_from_hit())
    if how == 'pickle':
        if V.conc:
            import pickle
            return lambda h: pickle.loads(pickle.dumps(h, V.choice('protocol', [0, 1, 2, 3, 4])))
        def f(h):
            V.trust('pickle: a new instance is made without __init__ and given __setstate__(__getstate__())')
            g = H.__new__(H); g.__setstate__(h.__getstate__()); return g
        return f
    if how == 'printed': return lambda h: eval(repr(h), {'Hit': H})

@contract('P04', 'copy', [HIT + f for f in ('deepcopy', '__deepcopy__', 'new_from_dict', 'dict_from_hit', '__getstate__', '__setstate__', 'set', 'get')], budget=100)
def copies(V):
    h = V.hit('h'); V.arbitrary_table()
    s, e, p = [V.integer('other_' + k, -5, 5) for k in ('spill', 'event', 'particle')]
    t0 = V.table(s, e, p)
    want = state(V, h)
    o = V.hit('o', **({'arbitrary_table': False} if V.conc else {}))
    t0 = V.table(s, e, p); want = state(V, h); owant = state(V, o)
    how = V.choice('how', ['deepcopy', 'copy-module', 'dict', 'pickle'] + (['printed'] if V.conc else []))
    c = copier(V, how)(h)
    V.check('is-a-hit', isinstance(c, V.Hit()))
    V.check('new-object', c is not h)
    same(V, 'equal', c, want)
    same(V, 'original-kept', h, want)
    same(V, 'other-hit-kept', o, owant)
    V.eq('weights-kept', V.table(s, e, p), t0)
    # independence, both ways
    v = V.choice('variable', ['x', 'energy', 'charge', 'station', 'pid', 'local_weight'])
    new = V.real('new', -9, 9) if v not in ('station', 'pid') else V.integer('new_int', -9, 9)
    a, b = (h, c) if V.choice('written', ['original', 'copy']) == 'original' else (c, h)
    a.set(v, new)
    V.eq('written', a.get(v), new)
    same(V, 'not-seen-by-the-other', b, want)

@contract('P04', 'copy-of-a-sparse-hit', [HIT + f for f in ('deepcopy', '__deepcopy__', 'new_from_dict', 'dict_from_hit', '__getstate__', '__setstate__', 'set', 'get')], budget=100)
def sparse(V):
    """a cut hit with few variables set: the zeros, the zero weights and a mass without energy are copied like any other value"""
    some = V.choice('set', [(), ('x', 'energy'), ('mass', 'pz'), ('local_weight', 'spin_x'), ('pid', 'station')])
    h = V.hit('h', only=some, local_weight=0) if 'local_weight' not in some else V.hit('h', only=some)
    if V.choice('globally-cut', [0, 1]): h.set('global_weight', 0)
    want = state(V, h)
    how = V.choice('how', ['deepcopy', 'copy-module', 'dict', 'pickle'] + (['printed'] if V.conc else []))
    c = copier(V, how)(h)
    V.check('new-object', c is not h)
    same(V, 'equal', c, want)
    same(V, 'original-kept', h, want)

@contract('P04', 'rebuilt-elsewhere', [HIT + f for f in ('new_from_dict', 'dict_from_hit', '__getstate__', '__setstate__', '__repr__')], budget=60)
def elsewhere(V):
    """the stored form carries every value, the global weight too: rebuilt where no weights are known (another process) it is the same hit"""
    H = V.Hit(); h = V.hit('h'); V.arbitrary_table()
    want = state(V, h)
    how = V.choice('how', ['dict', 'pickle'] + (['printed'] if V.conc else []))
    if how == 'dict': d = h.dict_from_hit()
    elif how == 'printed': d = repr(h)
    elif V.conc:
        import pickle
        d = pickle.dumps(h, V.choice('protocol', [0, 2, 4]))
    else: d = h.__getstate__()
    H.clear_global_weights()
    if how == 'dict': c = H.new_from_dict(d)
    elif how == 'printed': c = eval(d, {'Hit': H})
    elif V.conc: c = pickle.loads(d)
    else: c = H.__new__(H); c.__setstate__(d)
    same(V, 'equal', c, want)

@contract('P04', 'dictionary', [HIT + 'dict_from_hit'], budget=30)
def dic(V):
    h = V.hit('h'); V.arbitrary_table()
    want = state(V, h)
    d = h.dict_from_hit()
    V.check('every-variable', set([V.alias(k) for k in d]) == set(want))
    for k in d: V.eq('value', d[k], want[V.alias(k)])
    same(V, 'original-kept', h, want)

@contract('P04', 'partial-dictionary', [HIT + 'new_from_dict', HIT + '__init__'], budget=60)
def partial(V):
    """variables that the dictionary does not name have the values of a new hit; the mass shell option applies"""
    order = V.choice('order', [('x', 'pid', 'local_weight'), ('global_weight', 'spill', 'event_number', 'particle_number', 'x'), ('spill', 'global_weight', 'y'), ('px', 'mass', 'pz'), ()])
    V.arbitrary_table()
    d = {}
    for k in order: d[k] = V.integer('v_' + k, -5, 5) if k in V.INTS else V.pos('v_' + k, 9)
    i0 = [d.get(k, 0) for k in ('spill', 'event_number', 'particle_number')]
    gw0 = V.table(*i0); d0 = dict(d)
    s, e, p = [V.integer('other_' + k, -5, 5) for k in ('spill', 'event', 'particle')]
    t0 = V.table(s, e, p)
    mode = 'energy' if 'mass' in order else ''
    h = V.Hit().new_from_dict(d, mode) if mode else V.Hit().new_from_dict(d)
    got = state(V, h)
    for k in V.DOUBLES + V.INTS + ['local_weight']:
        if k == 'energy' and mode: V.eq('mass-shell', got[k] * got[k], d['mass'] * d['mass'] + d['px'] * d['px'] + d['pz'] * d['pz'])
        else: V.eq('value', got[k], d.get(k, 1. if k == 'local_weight' else 0))
    V.eq('global-weight', got['global_weight'], d.get('global_weight', gw0))
    if 'global_weight' in d: V.assume(V.not_(V.and_(s == i0[0], e == i0[1], p == i0[2])))
    V.eq('weights-kept', V.table(s, e, p), t0)
    V.eq('dictionary-kept', d, d0)

@contract('P04', 'shallow', [HIT + 'copy', HIT + '__copy__'], budget=30)
def shallow(V):
    import copy
    h = V.hit('h')
    c = h.copy() if V.choice('how', ['method', 'module']) == 'method' else (copy.copy(h) if V.conc else V.front.copymod.copy(h))
    V.check('same-hit', c is h)
    x = V.real('value', -9, 9); c.set('x', x)
    V.eq('shared', h.get('x'), x)

@contract('P04', 'equality', [HIT + '__eq__'], budget=60)
def equality(V):
    h = V.hit('h'); V.arbitrary_table()
    o = h.deepcopy()
    V.check('equal-to-itself', h == h)
    V.check('equal-to-its-copy', h == o and o == h)
    v = V.choice('variable', ['x', 'e_dep', 'local_weight', 'pid', 'particle_number'])
    d = V.integer('change_int', 1, 9) if v in ('pid', 'particle_number') else V.real('change', 1e-3, 9)
    if V.conc: V.assume(abs(h.get(v) + d) < 2 ** 31 and h.get(v) + d - h.get(v) > 1e-4)
    o.set(v, h.get(v) + d)
    if v == 'particle_number': o.set('global_weight', h.get('global_weight'))
    V.check('different', not (h == o) and not (o == h))
    V.check('not-a-hit', not (h == 3))
