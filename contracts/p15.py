"""P15 emittance, Twiss parameters, amplitude, angular momentum, dispersion"""
from dv.api import contract
from contracts.bunchlib import Moments
from contracts.p09 import scale, heavy
BUN = 'xboa/bunch/_bunch.py:Bunch.'
HIT = 'xboa/hit/_hit.py:Hit.'
FIELDS = ('x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'mass', 'bz')
BOUNDS = {'energy': (150., 400.), 'mass': (100., 110.), 'px': (-20., 20.), 'py': (-20., 20.), 'pz': (100., 260.), 'x': (-50., 50.), 'y': (-50., 50.), 'z': (-50., 50.), 't': (-50., 50.)}

class Ghost(object):
    """mean and second moments of a bunch; symbolically, the contracts of mean, moment and covariance_matrix (P09, P10)"""
    def __init__(self, V):
        self.V = V
        self.n = n = V.size('n', 4 if V.conc else 1)
        self.b, self.f = V.bunch(n, fields=FIELDS, bounds=BOUNDS) if V.conc else V.bunch(n)
        self.c = {}; self.m = {}
        V.later(lambda B=V.Bunch(): B.set_geometric_momentum(False))
        if V.conc:
            for i in range(n): V.assume(self.f.old('local_weight', i) > 0.05)
            tab = [self.b[i] for i in range(n)]
            self.mo = Moments(V, self.f, n, lambda v, i: tab[i].get(v))
            V.assume(self.mo.total() > 0.1); heavy(V, self.mo)
            return
        B = V.Bunch()
        def mean(bunch, vs):
            V.check('mean-of-this-bunch', bunch is self.b)
            return {v: self.mean(v) for v in vs}
        def moment(bunch, vs, centres={}):
            V.check('moment-of-this-bunch', bunch is self.b)
            return self.raw(vs, centres)
        def cov(bunch, vs, centres={}):
            V.check('covariance-of-this-bunch', bunch is self.b)
            return V.matrix([[self.raw([a, d], centres) for d in vs] for a in vs])
        V.patch(B, 'mean', mean); V.patch(B, 'moment', moment); V.patch(B, 'covariance_matrix', cov)
        V.trust('Bunch.mean, moment and covariance_matrix through their contracts (P09, P10)')
    def mean(self, v):
        if self.V.conc: return self.mo.mean(v)
        if v not in self.m: self.m[v] = self.V.real('mean_' + v)
        return self.m[v]
    def cov(self, a, b):
        if self.V.conc: return self.mo.moment([a, b])
        k = tuple(sorted((a, b)))
        if k not in self.c: self.c[k] = self.V.real('cov_%s_%s' % k)
        return self.c[k]
    def raw(self, vs, centres):
        if self.V.conc: return self.mo.moment(list(vs), dict(centres))
        if len(vs) != 2: return self.V.E.unsupported_('moment of order %d' % len(vs))
        a, b = vs
        ca = centres[a] if a in centres else self.mean(a); cb = centres[b] if b in centres else self.mean(b)
        return self.cov(a, b) + (self.mean(a) - ca) * (self.mean(b) - cb)
    def mass(self): return self.f.old('mass', 0)

def momentum(axis, geometric): return axis + "'" if geometric else 'energy' if axis in ('t', 'ct') else 'p' + axis

def convention(V, how):
    """-> (argument to pass, the convention that must apply)"""
    B = V.Bunch()
    setting, arg = how
    B.set_geometric_momentum(setting)
    return (arg,) if arg is not None else (), (setting if arg is None else arg)

HOW = [(False, None), (True, None), (False, True), (True, False)]

def emit(V, g, axes, geo):
    vs = []
    for a in axes: vs += [a, momentum(a, geo)]
    C = [[g.cov(p, q) for q in vs] for p in vs]
    return vs, C, V.det(C)

@contract('P15', 'twiss-one-axis', [BUN + f for f in ('get_emittance', 'get_beta', 'get_gamma', 'get_alpha', 'momentum_variable', 'axis_list_to_covariance_list')], budget=100, tmo=20)
def one(V):
    g = Ghost(V); b = g.b
    axis, how = V.choice('case', [(a, h) for a in ('x', 'y', 'z', 't', 'ct') for h in (HOW if a in ('x', 'y') else HOW[:1])])
    extra, geo = convention(V, how)
    vs, C, D = emit(V, g, [axis], geo)
    V.assume(D > (0 if not V.conc else 1e-6 * C[0][0] * C[1][1]))
    if not V.conc: V.assume(g.mass() > 0); V.assume(C[0][0] > 0)
    p = 1. if geo else g.mean('p'); m = 1. if geo else g.mass()
    if not V.conc and not geo: V.assume(p > 0)
    args = (None,) + extra if extra else ()
    e = b.get_emittance([axis], *args)
    be, ga, al = b.get_beta([axis], *extra), b.get_gamma([axis], *extra), b.get_alpha([axis], *extra)
    T = {'tol': 1e-6} if V.conc else {}
    V.check('positive', e > 0)
    V.eq('emittance', e * m * e * m, D, **T)
    V.eq('beta', be * e * m, C[0][0] * p, **T)
    V.eq('gamma', ga * e * m * p, C[1][1], **T)
    V.eq('alpha', -al * e * m, C[0][1], scale=(C[0][0] * C[1][1]) ** 0.5 if V.conc else None, **T)
    V.eq('determinant', be * ga - al * al, 1., scale=max(1., be * ga) if V.conc else None, **T)
    d = {'emittance': e, 'beta': be, 'gamma': ga, 'alpha': al}
    if how[1] is None:
        for k in d: V.eq('by-name', b.get(k, [axis]), d[k], **T)

@contract('P15', 'twiss-two-axes', [BUN + f for f in ('get_emittance', 'get_beta', 'get_gamma', 'get_alpha', 'momentum_variable', 'axis_list_to_covariance_list')], budget=200, tmo=20, bound='one and two axes')
def two(V):
    g = Ghost(V); b = g.b
    axes, how = V.choice('case', [(a, h) for a in (['x', 'y'], ['t', 'x'], ['y', 'ct']) for h in (HOW if a == ['x', 'y'] else HOW[:1])])
    extra, geo = convention(V, how)
    vs, C, D = emit(V, g, axes, geo)
    q = 1.
    for i in range(4): q = q * C[i][i]
    V.assume(D > (0 if not V.conc else 1e-6 * q))
    p = 1. if geo else g.mean('p'); m = 1. if geo else g.mass()
    if not V.conc: V.assume(g.mass() > 0)
    if not V.conc and not geo: V.assume(p > 0)
    args = (None,) + extra if extra else ()
    e = b.get_emittance(axes, *args)
    T = {'tol': 1e-6} if V.conc else {}
    V.check('positive', e > 0)
    V.eq('emittance', e * m * e * m * e * m * e * m, D, **T)
    be, ga, al = b.get_beta(axes, *extra), b.get_gamma(axes, *extra), b.get_alpha(axes, *extra)
    V.eq('beta', be * e * m * 2, (C[0][0] + C[2][2]) * p, **T)
    V.eq('gamma', ga * e * m * p * 2, C[1][1] + C[3][3], **T)
    V.eq('alpha', -al * e * m * 2, C[0][1] + C[2][3], scale=(C[0][0] * C[1][1]) ** 0.5 + (C[2][2] * C[3][3]) ** 0.5 if V.conc else None, **T)

@contract('P15', 'emittance-given-matrix', [BUN + 'get_emittance'], budget=60, tmo=20, bound='one and two axes')
def given(V):
    g = Ghost(V); b = g.b
    d, how = V.choice('case', [(d, h) for d in (1, 2) for h in HOW])
    extra, geo = convention(V, how)
    if V.conc:
        L = [[V.real('l%d%d' % (i, j), 0.5, 3) if i == j else (V.real('l%d%d' % (i, j), -1, 1) if j < i else 0.) for j in range(2 * d)] for i in range(2 * d)]
        C = [[sum([L[i][k] * L[j][k] for k in range(2 * d)]) for j in range(2 * d)] for i in range(2 * d)]
    else: C = [[V.real('c%d%d' % (min(i, j), max(i, j))) for j in range(2 * d)] for i in range(2 * d)]; 
    if not V.conc: C = [[C[min(i, j)][max(i, j)] for j in range(2 * d)] for i in range(2 * d)]
    D = V.det(C)
    if not V.conc: V.assume(D > 0); V.assume(g.mass() > 0)
    M = V.matrix(C)
    e = b.get_emittance(['x', 'y'][:d], M, *extra)
    m = 1. if geo else g.mass()
    w = 1.
    for i in range(2 * d): w = w * (e * m)
    V.eq('emittance', w, D, **({'tol': 1e-6} if V.conc else {}))
    for i in range(2 * d):
        for j in range(2 * d): V.eq('matrix-kept', M[i, j], C[i][j])

@contract('P15', 'amplitude', [BUN + 'get_amplitude', BUN + 'get_emittance', HIT + 'get_vector'], budget=200, tmo=20, bound='one axis for every value; two axes in the bounded run')
def amp(V):
    g = Ghost(V); b = g.b
    how, mat, mns = V.choice('case', [(h, a, c) for h in HOW for a in (0, 1) for c in (0, 1) if (a == c) or h == HOW[0]])
    axes = V.choice('axes', [['x'], ['ct'], ['x', 'y']]) if V.conc and how[0] is False and how[1] is None else ['y'] if not V.conc else V.choice('axes', [['x'], ['y', 'x']])
    extra, geo = convention(V, how)
    vs, C, D = emit(V, g, axes, geo)
    d = len(axes)
    h = b[V.integer('hit', 0, g.n - 1)] if V.conc else V.hit('h')
    if not V.conc and geo: V.assume(V.snapshot(h)['pz'] != 0)
    given = {}
    if mns: given = {v: V.real('centre_' + v, -1, 1) for v in vs}
    c = given or {v: g.mean(v) for v in vs}
    if mat:
        if V.conc: C = [[C[i][j] * (1.5 if i == j else 0.5) for j in range(2 * d)] for i in range(2 * d)]
        else: C = [[V.real('v%d%d' % (min(i, j), max(i, j))) for j in range(2)] for i in range(2)]; C[1][0] = C[0][1]
        D = V.det(C)
    q = 1.
    for i in range(2 * d): q = q * C[i][i]
    V.assume(D > (0 if not V.conc else 1e-4 * q))
    if not V.conc: V.assume(g.mass() > 0)
    M = V.matrix(C) if mat else None
    vec = [h.get(v) - c[v] for v in vs]
    m = 1. if geo else g.mass()
    got = V.Bunch().get_amplitude(b, h, axes, M, given, *extra)
    if V.conc:
        import numpy
        A = numpy.matrix(C); v = numpy.matrix(vec)
        e = D ** (0.5 / d) / m
        V.eq('amplitude', got, float((v * numpy.linalg.inv(A) * v.T)[0, 0]) * e, tol=1e-5)
        for i in range(2 * d):
            if mat:
                for j in range(2 * d): V.eq('matrix-kept', M[i, j], C[i][j])
    else:
        form = vec[0] * vec[0] * C[1][1] - 2 * vec[0] * vec[1] * C[0][1] + vec[1] * vec[1] * C[0][0]
        # amplitude * D = form * emittance, emittance = sqrt(D) / m
        V.eq('amplitude', got * V.sqrt(D) * m, form)

@contract('P15', 'angular-momentum', [BUN + 'get_kinetic_angular_momentum', BUN + 'get_canonical_angular_momentum'], budget=60, tmo=20)
def ang(V):
    g = Ghost(V); b = g.b
    geo, axis = V.choice('case', [(q, a) for q in (False, True) for a in ('default', 'given')])
    V.Bunch().set_geometric_momentum(geo)
    px, py = ("x'", "y'") if geo else ('px', 'py')
    rot = {v: 0. for v in ('x', 'y', px, py)}; fld = {'x': 0., 'y': 0.}
    if axis == 'given':
        rot = {v: V.real('axis_' + v, -2, 2) for v in rot}; fld = {v: V.real('field_axis_' + v, -2, 2) for v in fld}
    k = g.mean('pz') if geo else 1.
    want = (g.raw(['x', py], rot) - g.raw(['y', px], rot)) * k
    S = {'scale': (abs(g.raw(['x', 'x'], rot)) + abs(g.raw(['y', 'y'], rot))) ** 0.5 * (abs(g.raw([px, px], rot)) + abs(g.raw([py, py], rot))) ** 0.5 * abs(k)} if V.conc else {}
    kin = b.get_kinetic_angular_momentum(dict(rot)) if axis == 'given' else b.get_kinetic_angular_momentum()
    V.eq('kinetic', kin, want, **S)
    if axis == 'default': V.eq('by-name', b.get('angular_momentum', ['x']), want, **S)
    field = V.choice('field', ['given', 'first-hit'])
    bz = V.real('bz', -4, 4) if field == 'given' else g.f.old('bz', 0)
    c = 299.792458                                # mm/ns
    x2 = g.raw(['x', 'x'], fld) + g.raw(['y', 'y'], fld)
    can = want + V.module('xboa.common').constants['c_light'] * bz * x2 / 2.
    if V.conc: S = {'scale': S['scale'] + abs(c * bz * x2)}
    args = {} if field == 'first-hit' else {'bz': bz}
    if axis == 'given': args.update(field_axis_dict=dict(fld), rotation_axis_dict=dict(rot))
    V.eq('canonical', b.get_canonical_angular_momentum(**args), can, **S)
    V.eq('speed-of-light', V.module('xboa.common').constants['c_light'], c, tol=1e-9)

@contract('P15', 'dispersion', [BUN + 'get_dispersion', BUN + 'get_dispersion_prime', BUN + 'get_dispersion_rsquared'], budget=60, tmo=20)
def disp(V):
    g = Ghost(V); b = g.b
    axis, how = V.choice('case', [(a, h) for a in ('x', 'y') for h in HOW])
    extra, geo = convention(V, how)
    v = g.cov('energy', 'energy'); V.assume(v > (0 if not V.conc else 1e-3)); e = g.mean('energy')
    mom = momentum(axis, geo)
    S = lambda a: {'scale': (g.cov(a, a) * v) ** 0.5 * abs(e)} if V.conc else {}
    d, dp = b.get_dispersion(axis), b.get_dispersion_prime(axis, *extra)
    V.eq('dispersion', d * v, g.cov(axis, 'energy') * e, **S(axis))
    V.eq('dispersion-prime', dp * v, g.cov(mom, 'energy') * e, **S(mom))
    if how[1] is None:
        V.eq('by-name', b.get('dispersion', [axis]), d, **S(axis)); V.eq('by-name', b.get('dispersion_prime', [axis]), dp, **S(mom))
    r2 = b.get_dispersion_rsquared()
    want = (g.raw(['r_squared', 'energy'], {'r_squared': 0., 'energy': 0.}) - (g.cov('x', 'x') + g.cov('y', 'y')) * e) * e
    V.eq('dispersion-of-r-squared', r2 * v, want, **({'scale': abs(g.raw(['r_squared', 'energy'], {'r_squared': 0., 'energy': 0.}) * e)} if V.conc else {}))

@contract('P15', 'stored-covariances', [BUN + '__cov_mat_picker', BUN + '__mean_picker', BUN + 'get_emittance', BUN + 'get_beta', BUN + 'get_amplitude'], mode='bounded', runs=60, maxn=8)
def stored(V):
    """the same numbers when the covariances are stored with the bunch, for every order of the axes"""
    g = Ghost(V); b = g.b
    geo = V.choice('convention', [False, True])
    V.Bunch().set_geometric_momentum(geo)
    axes = V.choice('axes', [['x'], ['y'], ['x', 'y'], ['y', 'x']] + ([] if geo else [['t'], ['z', 'x'], ['t', 'x', 'y']]))
    vs, C, D = emit(V, g, axes, geo)
    q = 1.
    for i in range(len(vs)): q = q * C[i][i]
    V.assume(D > 1e-6 * q)
    h = b[V.integer('hit', 0, g.n - 1)]
    calc = lambda: [b.get_emittance(axes), b.get_beta(axes), b.get_gamma(axes), b.get_alpha(axes), V.Bunch().get_amplitude(b, h, axes)]
    one = calc()
    other = b.get_emittance(axes, None, not geo) if axes in (['x'], ['y'], ['x', 'y'], ['y', 'x']) else None
    try: b.set_covariance_matrix(True)
    except Exception:
        V.assume(False)
    two = calc()
    for x, y in zip(one, two): V.eq('stored', y, x, tol=1e-5, scale=max(1., abs(x)))
    if other is not None: V.eq('other-convention', b.get_emittance(axes, None, not geo), other, tol=1e-6)

from contracts.p10 import stored_used
contract('P15', 'stored-entries', [BUN + '__cov_mat_picker', BUN + '__mean_picker', BUN + 'get_emittance', BUN + 'get_amplitude'], budget=100, tmo=20)(stored_used)
