"""P08 a bunch's list and its numerical core agree"""
from dv.api import contract
from contracts import p13
BUN = 'xboa/bunch/_bunch.py:Bunch.'

def agree(V, b, n, want):
    """representation invariant: the list is want(0..n-1) and the core holds the records of exactly these hits"""
    if V.conc: return agree_conc(V, b, [want(i) for i in range(n)])
    hs = b._Bunch__hits
    V.seq_eq('list', hs, n, want)
    V.seq_eq('core', b._Bunch__bunchcore.items, n, lambda i: want(i)._Hit__hitcore)

def agree_conc(V, b, hs):
    core = b._Bunch__bunchcore
    V.eq('length', len(b), len(hs)); V.eq('core-length', core.length(), len(hs))
    for i, h in enumerate(hs):
        V.check('same-hit', b[i] is h)
        old = h['proper_time']
        h['proper_time'] = 1000. + i
        V.eq('core-sees-a-change', core.get_item(i).get('proper_time'), 1000. + i)
        h['proper_time'] = old
        for v in ('x', 'pz', 'energy', 'pid', 'spill', 'local_weight', 'global_weight'): V.eq('core-record', core.get_item(i).get(v), h[v])
    W = sum([h['weight'] for h in hs])
    A = sum([abs(h['weight']) for h in hs])
    if hs and abs(W) > 1e-3 * max(1., A):
        V.eq('weight', b.bunch_weight(), W)
        for v in ('x', 'pz'): V.eq('mean', b.mean([v])[v], sum([h['weight'] * h[v] for h in hs]) / W, scale=1 + sum([abs(h['weight'] * h[v]) for h in hs]) / abs(W))
        V.eq('moment', b.moment(['x', 'y'], {'x': 0., 'y': 0.}), sum([h['weight'] * h['x'] * h['y'] for h in hs]) / W, scale=1 + sum([abs(h['weight'] * h['x'] * h['y']) for h in hs]) / abs(W))

def kept(V, f, n):
    def one(i):
        for k in V.DOUBLES + V.INTS + ['local_weight'] if V.conc else list(f.fields): V.eq('hits-kept', f.rd(k, i), f.old(k, i))
    V.forall('hits-kept', n, one)

@contract('P08', 'new', [BUN + '__init__', BUN + '__len__'], budget=20)
def new(V):
    b = V.Bunch()()
    V.eq('empty', V.len(b), 0)
    agree(V, b, 0, lambda i: None)

@contract('P08', 'append', [BUN + 'append'], budget=30)
def append(V):
    n = V.size('n'); b, f = V.bunch(n)
    h = V.hit('h')
    b.append(h)
    if V.conc: agree_conc(V, b, [f.hit_at(i) for i in range(n)] + [h])
    else:
        hs, cs = b._Bunch__hits, b._Bunch__bunchcore.items
        V.eq('length', V.len(b), n + 1); V.eq('core-length', V.len(cs), n + 1)
        V.check('last', hs[n] is h and p13_same(cs[n], h._Hit__hitcore))
        V.forall('others', n, lambda i: (V.check('list.same', hs[i] is f.hit_at(i) or p13_same(hs[i]._Hit__hitcore, f.core_at(i))), V.check('core.same', p13_same(cs[i], f.core_at(i)))))
    kept(V, f, n)

def p13_same(a, b): return type(a).dv_same(a, b)

@contract('P08', 'set-item', [BUN + '__setitem__'], budget=60)
def set_item(V):
    n = V.size('n'); b, f = V.bunch(n)
    h = V.hit('h')
    k = V.integer('key', -12, 12)
    def put(): b[k] = h
    ok, exc = V.attempt(put)
    inside = V.and_(k < n, k >= -n)
    V.check('refused-exactly-outside', inside if ok else V.not_(inside))
    if not ok:
        V.check('index-error', isinstance(exc, IndexError))
        agree(V, b, n, f.hit_at)
    else:
        at = V.ite(k < 0, k + n, k)
        if V.conc: agree_conc(V, b, [h if i == at else f.hit_at(i) for i in range(n)])
        else:
            hs, cs = b._Bunch__hits, b._Bunch__bunchcore.items
            V.eq('length', V.len(b), n); V.eq('core-length', V.len(cs), n)
            V.check('placed', same_hit(hs[at], h) and p13_same(cs[at], h._Hit__hitcore))
            def one(i):
                if bool(i == at): return
                V.check('others.list', same_hit(hs[i], f.hit_at(i))); V.check('others.core', p13_same(cs[i], f.core_at(i)))
            V.forall('others', n, one)
    kept(V, f, n)

def same_hit(a, b): return a is b or p13_same(a._Hit__hitcore, b._Hit__hitcore)

@contract('P08', 'delete-item', [BUN + '__delitem__'], budget=60)
def del_item(V):
    n = V.size('n'); b, f = V.bunch(n)
    k = V.integer('key', -12, 12)
    def drop(): del b[k]
    ok, exc = V.attempt(drop)
    inside = V.and_(k < n, k >= -n)
    V.check('refused-exactly-outside', inside if ok else V.not_(inside))
    if not ok:
        V.check('index-error', isinstance(exc, IndexError))
        agree(V, b, n, f.hit_at)
    else:
        at = V.ite(k < 0, k + n, k)
        if V.conc: agree_conc(V, b, [f.hit_at(i) for i in range(n) if i != at])
        else:
            hs, cs = b._Bunch__hits, b._Bunch__bunchcore.items
            V.eq('length', V.len(b), n - 1); V.eq('core-length', V.len(cs), n - 1)
            def one(i):
                j = i + 1 if bool(i >= at) else i
                V.check('list.shifted', same_hit(hs[i], f.hit_at(j))); V.check('core.shifted', p13_same(cs[i], f.core_at(j)))
            V.forall('rest', n - 1, one)
    kept(V, f, n)

@contract('P08', 'get-item', [BUN + '__getitem__', BUN + '__len__', BUN + 'hits'], budget=60)
def get_item(V):
    n = V.size('n'); b, f = V.bunch(n)
    k = V.integer('key', -12, 12)
    inside = V.and_(k < n, k >= -n)
    got = []
    ok, exc = V.attempt(lambda: got.append(b[k]))
    V.check('refused-exactly-outside', inside if ok else V.not_(inside))
    if ok:
        at = V.ite(k < 0, k + n, k)
        V.check('hit', got[0] is f.hit_at(at) if V.conc else same_hit(got[0], f.hit_at(at)))
    V.eq('length', V.len(b), n)
    agree(V, b, n, f.hit_at)

contract('P08', 'conditional-remove', [BUN + 'conditional_remove'], budget=200, tmo=20)(p13.remove)

@contract('P08', 'history', [BUN + x for x in ('append', '__setitem__', '__delitem__', '__getitem__', 'conditional_remove', 'new_from_hits', '__deepcopy__', 'deepcopy')] + ['xboa/core/cpplib/Bunchcore.cc:set_item', 'xboa/core/cpplib/Bunchcore.cc:del_item'], mode='bounded', runs=150, maxn=6)
def history(V):
    """random histories of operations against a list of hits (20 operations; at most 26 hits)"""
    import random
    n = V.size('n'); b, f = V.bunch(n)
    model = [f.hit_at(i) for i in range(n)]
    r = random.Random(V.integer('history', 0, 10 ** 9))
    H, B = V.Hit(), V.Bunch()
    def fresh():
        h = H.new_from_dict({'x': r.uniform(-5, 5), 'y': r.uniform(-5, 5), 'pz': r.uniform(0, 5), 'mass': 105.7, 'pid': -13, 'event_number': r.randint(0, 3), 'spill': 9})
        h['local_weight'] = r.choice([0., 1., 2.5]); return h
    for step in range(20):
        op = r.choice(['append', 'append', 'set', 'del', 'bad-set', 'bad-del', 'bad-key', 'twice', 'remove', 'change', 'rebuild'])
        m = len(model)
        if op == 'append': h = fresh(); b.append(h); model.append(h)
        elif op == 'twice' and m: h = r.choice(model); b.append(h); model.append(h)
        elif op == 'set' and m: k = r.randrange(-m, m); h = r.choice([fresh(), model[0]]); b[k] = h; model[k] = h
        elif op == 'del' and m: k = r.randrange(-m, m); del b[k]; del model[k]
        elif op in ('bad-set', 'bad-del', 'bad-key'):
            k = r.choice([m, m + 3, -m - 1, -m - 9]) if op != 'bad-key' else r.choice(['a', None, 1.5])
            def bad():
                if op == 'bad-del': del b[k]
                else: b[k] = fresh()
            V.check('refused', not V.attempt(bad)[0])
        elif op == 'remove': c = r.uniform(-5, 9); b.conditional_remove({'x': c}, lambda a, d: a > d); model = [h for h in model if not h['x'] > c]
        elif op == 'change' and m: h = r.choice(model); h['x'] = r.uniform(-3, 3); h['local_weight'] = r.uniform(0, 3)
        elif op == 'rebuild' and step > 15:
            c = r.choice([lambda: B.new_from_hits(model), lambda: b.deepcopy()])()
            V.eq('copy-length', len(c), m)
            for i in range(m): V.check('copy-equal', c[i] == model[i]); V.check('copy-independent', c[i] is not model[i])
            agree_conc(V, c, [c[i] for i in range(m)])
            for i in range(m): c[i]['y'] = 77.
            V.check('copy-independent', all([h['y'] != 77. for h in model]))
        if step % 4 == 3 or step == 19: agree_conc(V, b, model)

@contract('P08', 'new-from-hits', [BUN + 'new_from_hits'], budget=60)
def from_hits(V):
    n = V.size('n'); b, f = V.bunch(n)
    if V.conc:
        c = V.Bunch().new_from_hits([b[i] for i in range(n)])
        V.eq('length', len(c), n)
        for i in range(n): V.check('equal', c[i] == b[i]); V.check('own-hit', c[i] is not b[i])
        agree_conc(V, c, [c[i] for i in range(n)])
        kept(V, f, n); return
    c2, g = V.bunch(n, 'copies')            # the deep copies that Hit.deepcopy returns
    calls = []
    def deep(h):
        V.check('copy-of-a-listed-hit', same_hit(h, f.hit_at(h._Hit__hitcore.store.i)))
        return g.hit_at(h._Hit__hitcore.store.i)
    V.patch(V.Hit(), 'deepcopy', deep)
    V.trust('Hit.deepcopy returns an equal, independent hit (P04)')
    V.listhint('copies', g.hit_at); V.listhint('copies-core', g.core_at)
    c = V.Bunch().new_from_hits(b._Bunch__hits)
    agree(V, c, n, g.hit_at)
    agree(V, b, n, f.hit_at)
    kept(V, f, n)

# ---- the numerical core itself (translated C++; the built extension in concrete runs)
PYB, CORE, PYH = 'xboa/core/pylib/PyBunchcore.cc:', 'xboa/core/cpplib/Bunchcore.cc:Bunchcore::', 'xboa/core/pylib/PyHitcore.cc:'
READ = ('x', 'pz', 'energy', 'proper_time', 'local_weight', 'pid', 'station', 'spill', 'event_number', 'particle_number')

def core_index(V, n):
    """an index of the core: inside, just behind the end, or far too large"""
    zone = V.choice('zone', ['inside', 'behind', 'huge'])
    if zone == 'inside': V.assume(n > 0); i = V.integer('i', 0, n - 1) if V.conc else V.integer('i'); V.assume(V.and_(i >= 0, i < n))
    elif zone == 'behind': i = n + (V.integer('i', 0, 6) if V.conc else V.integer('i', 0, 2**31))
    else:
        i = V.choice('which', [2**60, 2**62, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**64 + 1, 2**70, -2**70, -2**63 - 1]) if V.conc else V.integer('i')
        V.assume(V.or_(i >= 2**60, i < -2**63))
    return zone, i

def reads(V, got, want, name):
    """the record returned for an entry holds these values (None: an empty entry)"""
    for v in READ: V.eq(name + '[%s]' % v, got.get(v), want(v), tol=0.)

def entries(V, bc, f, m, at):
    """the core has m entries; entry k is entry at(k) of the core as it was (None: empty)"""
    V.eq('length', bc.length(), m)
    def one(k):
        j = at(k); got = bc.get_item(k)
        if j is None or f.null(j): V.check('empty-entry', got is None)
        else:
            V.check('entry', got is not None)
            if got is not None: reads(V, got, lambda v: f.old(v, j), 'entry')
    V.forall('entries', m, one)

@contract('P08', 'core-get', [PYB + 'get_item', PYB + 'length', PYH + 'C_API::create_empty_hitcore', 'xboa/core/cpplib/Bunchcore.hh:Bunchcore::get_item', 'xboa/core/cpplib/Bunchcore.hh:Bunchcore::length'], budget=150)
def core_get(V):
    n = V.size('n'); V.assume(n < 2**31); bc, f = V.core_bunch(n, nulls=True)
    zone, i = core_index(V, n)
    if zone != 'inside': V.raises('refused', IndexError, lambda: bc.get_item(i))
    else:
        got = bc.get_item(index=i) if V.choice('keyword', [0, 1]) else bc.get_item(i)
        if f.null(i): V.check('empty', got is None)
        else:
            V.check('there', got is not None); reads(V, got, lambda v: f.old(v, i), 'read')
            x = V.real('x'); got.set('x', x)
            V.eq('the-record-itself', bc.get_item(i).get('x'), x, tol=0.)
            got.set('x', f.old('x', i))
    entries(V, bc, f, n, lambda k: k)

@contract('P08', 'core-set', [PYB + 'set_item', CORE + 'set_item', PYB + 'get_item', PYB + 'length'], budget=200)
def core_set(V):
    n = V.size('n'); V.assume(n < 2**31); bc, f = V.core_bunch(n, nulls=True)
    zone, i = core_index(V, n)
    hc = V.lib().Hitcore(); mine = {'x': V.real('mine_x'), 'energy': V.real('mine_e'), 'local_weight': V.real('mine_w'), 'pid': V.integer('mine_pid', -9, 9)}
    for v in mine: hc.set(v, mine[v])
    put = lambda: bc.set_item(value=hc, index=i) if V.choice('keyword', [0, 1]) else bc.set_item(hc, i)
    if zone == 'huge':
        V.raises('refused', IndexError, put)
        entries(V, bc, f, n, lambda k: k); return
    put()
    V.eq('length', bc.length(), n if zone == 'inside' else i + 1)
    for v in mine: V.eq('placed[%s]' % v, bc.get_item(i).get(v), mine[v], tol=0.)
    x = V.real('x'); hc.set('x', x)
    V.eq('the-record-itself', bc.get_item(i).get('x'), x, tol=0.)
    def one(k):
        if bool(k == i): return
        got = bc.get_item(k)
        if bool(k >= n) or f.null(k): V.check('empty-entry', got is None)
        else:
            V.check('entry', got is not None)
            if got is not None: reads(V, got, lambda v: f.old(v, k), 'entry')
    V.forall('others', bc.length(), one)

@contract('P08', 'core-delete', [PYB + 'del_item', CORE + 'del_item', PYB + 'get_item', PYB + 'length'], budget=150)
def core_delete(V):
    n = V.size('n'); V.assume(n < 2**31); bc, f = V.core_bunch(n, nulls=True)
    zone, i = core_index(V, n)
    if zone != 'inside':
        V.raises('refused', IndexError, lambda: bc.del_item(i))
        entries(V, bc, f, n, lambda k: k); return
    V.check('returns-nothing', (bc.del_item(index=i) if V.choice('keyword', [0, 1]) else bc.del_item(i)) is None)
    entries(V, bc, f, n - 1, lambda k: k + 1 if bool(k >= i) else k)
