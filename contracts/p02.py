"""P02 derived hit variables, P03-independent.  Interface used: Hit.get / Hit.set / item access only."""
from dv.api import contract
HIT = 'xboa/hit/_hit.py:Hit.'
C = 299.792458   # mm/ns

def same_except(V, name, before, after, changed):
    for f in before:
        if f not in changed: V.eq(name + '.unchanged[%s]' % f, after[f], before[f], tol=0.)

@contract('P02', 'derived-get', [HIT + f for f in ('get', '__getitem__', 'get_p', 'get_pt', 'get_r', 'get_r_squared', 'get_xP', 'get_yP', 'get_tP', 'get_rP', 'get_ct', 'get_ek', 'get_l_kin', 'get_spin', 'get_weight')])
def derived_get(V):
    h = V.hit('h')
    before = V.snapshot(h)
    g = lambda f: V.raw(h, f)
    var = V.choice('var', ['p', 'pt', 'r', 'r_squared', 'spin', 'l_kin', 'ct', 'kinetic_energy', 'weight', "z'", 'slopes'])
    if var in ('p', 'pt', 'r', 'spin'):
        comps = {'p': ('px', 'py', 'pz'), 'pt': ('px', 'py'), 'r': ('x', 'y'), 'spin': ('sx', 'sy', 'sz')}[var]
        v = h.get(var)
        V.check(var + '.non-negative', v >= 0)
        s = 0.
        for c in comps: s = s + g(c) * g(c)
        V.eq(var + '.square', v * v, s)
        V.eq(var + '.item', h[var], v)
    elif var == 'r_squared': V.eq('r_squared', h.get(var), g('x') * g('x') + g('y') * g('y'))
    elif var == 'l_kin': V.eq('l_kin', h[var], g('x') * g('py') - g('y') * g('px'))
    elif var == 'ct': V.eq('ct', h[var], g('t') * C)
    elif var == 'kinetic_energy': V.eq('ek', h[var], g('energy') - g('mass'))
    elif var == 'weight':
        V.eq('weight', h[var], g('local_weight') * V.table(g('spill'), g('event_number'), g('particle_number')))
        V.eq('weight-method', h.get_weight(), h[var])
    elif var == "z'": V.eq("z'", h[var], 1.)
    else:
        V.assume(g('pz') != 0)
        V.eq("x'", h["x'"] * g('pz'), g('px'))
        V.eq("y'", h["y'"] * g('pz'), g('py'))
        V.eq("t'", h["t'"] * g('pz'), -g('energy'))
        V.eq("r'", h["r'"] * g('pz'), h['pt'])
    same_except(V, 'get', before, V.snapshot(h), ())

@contract('P02', 'angles', [HIT + 'get_phi', HIT + 'get_pphi'])
def angles(V):
    h = V.hit('h', only=('x', 'y', 'px', 'py', 'pz'))
    for var, a, b in (('phi', 'x', 'y'), ('pphi', 'px', 'py')):
        x, y = V.raw(h, a), V.raw(h, b)
        r = V.sqrt(x * x + y * y)
        v = h[var]
        V.eq(var + '.cos', r * V.m.cos(v), x)
        V.eq(var + '.sin', r * V.m.sin(v), y)
        V.check(var + '.range', V.and_(v <= V.m.pi, v >= -V.m.pi))

@contract('P02', 'set-p', [HIT + 'set', HIT + 'set_p', HIT + '__setitem__'])
def set_p(V):
    h = V.hit('h')
    before = V.snapshot(h)
    v = V.real('v', lo=0.)
    zero = V.choice('p-is-zero', [False, True])
    px, py, pz = before['px'], before['py'], before['pz']
    p2 = px * px + py * py + pz * pz
    if zero:
        if V.conc:
            for f in ('px', 'py', 'pz'): h.set(f, 0.)
            before = V.snapshot(h); px = py = pz = 0.
        else: V.assume(V.and_(px == 0, py == 0, pz == 0))
    else: V.assume(p2 > 0)
    h['p'] = v
    nx, ny, nz = V.raw(h, 'px'), V.raw(h, 'py'), V.raw(h, 'pz')
    V.eq('reads-back', h['p'], v)
    if not zero:
        V.eq('direction.xy', nx * py, ny * px)
        V.eq('direction.yz', ny * pz, nz * py)
        V.eq('direction.zx', nz * px, nx * pz)
        V.check('same-sense', nx * px + ny * py + nz * pz >= -(1e-9 if V.conc else 0))
    same_except(V, 'set-p', before, V.snapshot(h), ('px', 'py', 'pz'))

@contract('P02', 'set-slopes', [HIT + 'set_xP', HIT + 'set_yP', HIT + 'set_tP'])
def set_slopes(V):
    h = V.hit('h')
    before = V.snapshot(h)
    var, ch = V.choice('slope', [("x'", ('px',)), ("y'", ('py',)), ("t'", ('energy', 'pz'))])
    v = V.real('v')
    pz0 = V.choice('pz-is-zero', [False, True])
    if pz0:
        if V.conc:
            h.set('pz', 0.); before = V.snapshot(h)
        else: V.assume(before['pz'] == 0)
        ok, r = V.attempt(h.set, var, v)
        V.check('refused', (not ok) and isinstance(r, FloatingPointError), 'slope set with pz = 0')
        same_except(V, 'refused', before, V.snapshot(h), ())
        return
    V.assume(V.absv(before['pz']) > 1e-6)
    if var == "t'":
        # reachable only with enough energy: the energy implied by the slope is at least the mass
        V.assume(-v * V.absv(before['pz']) >= before['mass'])
        V.assume(before['mass'] >= 0)
        V.assume(v < 0)
    ok, r = V.attempt(h.set, var, v)
    V.check('accepted', ok, repr(r))
    V.eq('reads-back', h[var], v)
    if var == "t'": V.eq('speed-kept', V.absv(V.raw(h, 'pz')), V.absv(before['pz']))
    same_except(V, 'slope', before, V.snapshot(h), ch)

@contract('P02', 'set-ct-ek', [HIT + 'set_ct', HIT + 'set_ek'])
def set_ct_ek(V):
    h = V.hit('h')
    before = V.snapshot(h)
    var, ch = V.choice('var', [('ct', 't'), ('kinetic_energy', 'energy')])
    v = V.real('v')
    h[var] = v
    V.eq('reads-back', h[var], v)
    if var == 'ct': V.eq('value', V.raw(h, 't') * C, v)
    else: V.eq('value', V.raw(h, 'energy'), v + before['mass'])
    same_except(V, var, before, V.snapshot(h), (ch,))

@contract('P02', 'unknown-names', [HIT + 'get', HIT + 'set'])
def unknown(V):
    h = V.hit('h')
    before = V.snapshot(h)
    k = V.choice('name', ['nothing', 'P', 'x ', 'pxx'])
    V.raises('get-unknown', Exception, h.get, k)
    V.raises('set-unknown', Exception, h.set, k, 1.)
    k = V.choice('readonly', ['pt', 'r', 'phi', 'pphi', "r'", 'spin', 'weight', 'r_squared', 'l_kin'])
    V.raises('set-readonly', Exception, h.set, k, 1.)
    same_except(V, 'unknown', before, V.snapshot(h), ())
