"""P22 grids and shells"""
import itertools
from dv.api import contract
COM = 'xboa/common/_common.py:'
BUN = 'xboa/bunch/_bunch.py:Bunch.'

def quad(V, v, m):
    d = len(v); s = 0.
    for i in range(d):
        for j in range(d): s = s + v[i] * m[i][j] * v[j]
    return s

def spd(V, d, name='m'):
    """positive definite matrix L L^T"""
    L = [[(V.pos('%s%d%d' % (name, i, j)) if i == j else V.real('%s%d%d' % (name, i, j), -3, 3) if V.conc else V.real('%s%d%d' % (name, i, j))) if j <= i else 0. for j in range(d)] for i in range(d)]
    if V.conc: 
        for i in range(d): L[i][i] += 0.05
    return [[sum([L[i][k] * L[j][k] for k in range(d)]) for j in range(d)] for i in range(d)]

@contract('P22', 'normalise', [COM + 'normalise_vector'], budget=150)
def norm(V):
    c = V.mod('xboa.common')
    d = V.choice('d', [1, 2, 3])
    v = V.vec('v', d); m = spd(V, d)
    q = quad(V, v, m)
    V.assume(q > (1e-6 if V.conc else 0))
    arg = V.matrix([v])
    r = c.normalise_vector(arg, V.matrix(m))
    r = [r[0, i] for i in range(d)]
    rs = V.sqrt(q)
    for i in range(d): V.eq('direction', r[i] * rs, v[i])
    V.eq('unit-length', quad(V, r, m), 1.)
    for i in range(d): V.eq('input-kept', arg[0, i], v[i])

@contract('P22', 'grid-one-dimension', [COM + 'make_grid'])
def g1(V):
    c = V.mod('xboa.common')
    n = V.integer('n', 2, 60 if V.conc else None)
    V.listhint('pt', lambda i: V.matrix([[2. * (V.toreal(i) + 1) / V.toreal(n - 1) - 1.]]))
    g = c.make_grid(1, n)
    V.eq('count', V.len(g), n)
    V.forall('points', n, lambda i: V.eq('coordinate', g[i][0, 0], -1. + 2. * V.toreal(i) / V.toreal(n - 1)))

@contract('P22', 'grid', [COM + 'make_grid'])
def gd(V):
    c = V.mod('xboa.common')
    d, n = V.choice('dn', [(1, 2), (1, 3), (1, 7), (2, 2), (2, 3), (2, 4), (2, 5), (3, 2), (3, 3), (3, 4), (4, 2), (4, 3), (6, 2)])
    g = c.make_grid(d, n)
    got = [tuple(int(round((p[0, i] + 1) * (n - 1) / 2 * 1e6)) for i in range(d)) for p in g]
    V.check('shape', all(tuple(p.shape) == (1, d) for p in g))
    V.check('every-combination-once', sorted(got) == sorted(tuple(k * 10**6 for k in t) for t in itertools.product(range(n), repeat=d)), str(got)[:300])

@contract('P22', 'shell', [COM + 'make_shell', COM + 'make_grid'], budget=200)
def shell(V):
    c = V.mod('xboa.common')
    d, n = V.choice('dn', [(1, 2), (1, 3), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (4, 2), (4, 3), (5, 2), (5, 3), (6, 2), (6, 3)])
    # above four dimensions the ellipse is one numeric matrix (the argument is about the points, not the inverse)
    m = spd(V, d) if d < 5 or V.conc else [[float(i + 1) if i == j else 0. for j in range(d)] for i in range(d)]
    with_mean = V.choice('mean', [0, 1])
    mean = V.vec('mean', d) if with_mean else [0.] * d
    arg = V.matrix(m)
    grid = [[float(p[0, i]) for i in range(d)] for p in c.make_grid(d, n)]
    grid = [p for p in grid if sum([x * x for x in p]) > 1e-9]
    V.eq('grid-size', len(grid), n ** d - n % 2)
    calls = []
    if not V.conc:
        # callee by its contract ('normalise'): a vector determined by the arguments
        def ghost(v, inv):
            for (v1, i1, r) in calls:
                if all([x is y or (not hasattr(x, 't') and not hasattr(y, 't') and x == y) for x, y in zip(v1.flat, v.flat)]) and i1 is inv: return r
            r = V.matrix([[V.real('u%d_%d' % (len(calls), i)) for i in range(d)]])
            calls.append((v.copy(), inv, r)); return r
        V.patch(V.mod('xboa.common._common'), 'normalise_vector', ghost)
        V.trust('the inverse of a positive definite matrix is positive definite (precondition of normalise_vector)')
    s = c.make_shell(n, arg, V.array(mean)) if with_mean else c.make_shell(n, arg)
    V.eq('count', V.len(s), len(grid))
    for k, p in enumerate(grid):
        v = s[k]
        r = [v[0, i] - mean[i] for i in range(d)]
        if V.conc:
            import numpy
            mi = numpy.linalg.inv(numpy.array(m)); rr = numpy.array(r)
            sc = float(abs(rr) @ abs(mi) @ abs(rr))
            V.eq('on-the-ellipsoid', float(rr @ mi @ rr), 1., tol=1e-6, scale=sc + 1.)
            q = float(numpy.array(p) @ mi @ numpy.array(p))
            for i in range(d): V.eq('direction', r[i], p[i] / q ** 0.5, tol=1e-4, scale=1. / q ** .5)
        else:
            mine = [cl for cl in calls if all([abs(float(x) - y) < 1e-12 for x, y in zip(cl[0].flat, p)])]
            V.check('normalised-once-or-more', len(mine) >= 1)
            for i in range(d): V.eq('normalised-grid-point-plus-mean', r[i], mine[0][2][0, i])
            if k == 0:
                inv = mine[0][1]
                for i in range(d):
                    for j in range(d): V.eq('metric-is-inverse', sum([m[i][l] * inv[l, j] for l in range(d)]), 1. if i == j else 0.)
            else: V.check('same-metric', mine[0][1] is calls[0][1])
    for i in range(d):
        for j in range(d): V.eq('ellipse-kept', arg[i, j], m[i][j])

@contract('P22', 'hit-shell', [BUN + 'new_hit_shell', COM + 'make_shell'], budget=200)
def hs(V):
    Bunch = V.Bunch()
    m = spd(V, 2)
    ms = V.choice('mass-shell', ['energy', 'pz'])
    n = V.choice('n', [2, 3])
    mass = V.pos('mass')
    dflt = {'mass': mass, 'x': V.real('x0'), 'px': V.real('px0'), 'y': V.real('y0'), 'pid': -13, 'spill': 4}
    # the sampled momenta are bounded by the given energy so that the mass shell can be met
    if ms == 'energy': dflt['pz'] = V.real('pz0')
    else:
        dflt['energy'] = mass + V.pos('ekin')
        if V.conc: dflt['px'] = 0.; m = [[x * 1e-6 for x in r] for r in m]
    before = dict(dflt)
    order = V.choice('order', [('x', 'px'), ('px', 'x')])
    vecs = V.mod('xboa.common').make_shell(n, V.matrix(m)) if V.conc else V.list([V.matrix([V.vec('s%d' % i, 2)]) for i in range(2)])
    if not V.conc: V.patch(V.mod('xboa.common'), 'make_shell', lambda k, e, mean=None: vecs)
    if ms == 'pz':
        for v in vecs:
            q = dflt['px'] + v[0, order.index('px')]
            V.assume(dflt['energy'] * dflt['energy'] - mass * mass - q * q > 1e-3)
    b = Bunch.new_hit_shell(n, V.matrix(m), V.list(order), ms, dflt)
    V.eq('one-hit-per-point', len(b) if V.conc else V.len(b), len(vecs))
    for i, v in enumerate(vecs):
        h = b[i]
        for k, var in enumerate(order): V.eq('coordinate', V.raw(h, var), before[var] + v[0, k])
        V.eq('event', V.raw(h, 'eventNumber' if V.conc else 'event_number'), i)
        V.eq('defaults', [V.raw(h, 'y'), V.raw(h, 'mass'), V.raw(h, 'pid'), V.raw(h, 'spill')], [before['y'], mass, -13, 4])
        V.eq('kept', V.raw(h, 'pz' if ms == 'energy' else 'energy'), before['pz' if ms == 'energy' else 'energy'])
        E, px, py, pz = [V.raw(h, q) for q in ('energy', 'px', 'py', 'pz')]
        V.eq('mass-shell', E * E, mass * mass + px * px + py * py + pz * pz, scale=E * E)
    V.eq('defaults-kept', dflt, before)
