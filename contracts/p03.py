"""P03 mass shell condition"""
from dv.api import contract
from contracts.p02 import same_except
HIT = 'xboa/hit/_hit.py:Hit.'

@contract('P03', 'component', [HIT + 'mass_shell_condition', HIT + 'get', HIT + 'set'])
def component(V):
    h = V.hit('h')
    b = V.snapshot(h)
    c = V.choice('variable', ['px', 'py', 'pz'])
    others = [x for x in ('px', 'py', 'pz') if x != c]
    left = b['energy'] * b['energy'] - b['mass'] * b['mass'] - b[others[0]] * b[others[0]] - b[others[1]] * b[others[1]]
    # between 0 and the documented tolerance 1e-6 either outcome is accepted
    V.assume(V.or_(left > 1e-3, left < -1e-9 if V.conc else left <= 0))
    solvable = V.choice('solvable', [True, False])
    if solvable: V.assume(left > 0)
    else: V.assume(left <= 0)
    ret = h.mass_shell_condition(c)
    new = V.raw(h, c)
    if solvable:
        V.eq('on-shell', new * new, left)
        V.check('reports-success', ret is True or ret == True)
    else:
        V.eq('zeroed', new, 0.)
        V.check('reports-failure', not ret)
    same_except(V, 'component', b, V.snapshot(h), (c,))

@contract('P03', 'energy', [HIT + 'mass_shell_condition'])
def energy(V):
    h = V.hit('h')
    b = V.snapshot(h)
    ret = h.mass_shell_condition('energy')
    e = V.raw(h, 'energy')
    V.eq('on-shell', e * e, b['px'] * b['px'] + b['py'] * b['py'] + b['pz'] * b['pz'] + b['mass'] * b['mass'])
    V.check('non-negative', e >= 0)
    same_except(V, 'energy', b, V.snapshot(h), ('energy',))

@contract('P03', 'total-momentum', [HIT + 'mass_shell_condition', HIT + 'set_p'])
def total(V):
    h = V.hit('h')
    b = V.snapshot(h)
    k = b['energy'] * b['energy'] - b['mass'] * b['mass']
    V.assume(k >= 0)
    p2 = b['px'] * b['px'] + b['py'] * b['py'] + b['pz'] * b['pz']
    V.assume(p2 > 0)
    h.mass_shell_condition('p')
    nx, ny, nz = V.raw(h, 'px'), V.raw(h, 'py'), V.raw(h, 'pz')
    V.eq('on-shell', nx * nx + ny * ny + nz * nz, k)
    # common factor
    V.eq('factor.xy', nx * b['py'], ny * b['px'])
    V.eq('factor.yz', ny * b['pz'], nz * b['py'])
    V.eq('factor.zx', nz * b['px'], nx * b['pz'])
    V.check('same-sense', nx * b['px'] + ny * b['py'] + nz * b['pz'] >= -(1e-9 if V.conc else 0))
    same_except(V, 'p', b, V.snapshot(h), ('px', 'py', 'pz'))

@contract('P03', 'none-and-unknown', [HIT + 'mass_shell_condition'])
def unknown(V):
    h = V.hit('h')
    b = V.snapshot(h)
    h.mass_shell_condition('')
    same_except(V, 'none', b, V.snapshot(h), ())
    k = V.choice('name', ['E', 'mass', 'ek', 'pt', 'x', 'p '])
    V.raises('refused', Exception, h.mass_shell_condition, k)
    same_except(V, 'unknown', b, V.snapshot(h), ())
