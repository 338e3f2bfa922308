"""P25 phase-advance tune"""
import math
from dv.api import contract
DP = 'xboa/algorithms/tune/_dphi_tune.py:DPhiTuneFinder.'
M = 'xboa.algorithms.tune._dphi_tune'

def turn(V, a, b):
    """advance from polar angle a to polar angle b in the decreasing sense, as a fraction of a turn in [0, 1)"""
    d = a - b
    return V.ite(d < 0., d + 2 * V.m.pi, d) / (2 * V.m.pi)

@contract('P25', 'advances', [DP + 'get_dphi_list'], budget=150)
def adv(V):
    """one advance per consecutive pair: the decrease of the polar angle of the normalised points, modulo one turn"""
    m = V.mod(M); n = V.size('n', 1)
    L = [[V.real('l00', 0.2 if V.conc else 0, 4, lo_open=True), 0.], [V.real('l10', -3, 3) if V.conc else V.real('l10'), V.real('l11', 0.2 if V.conc else 0, 4, lo_open=True)]]
    ell = [[sum([L[i][k] * L[j][k] for k in range(2)]) for j in range(2)] for i in range(2)]
    c = V.vec('c', 2)
    u, v = V.seq('u', n), V.seq('v', n); uf, vf = V.fn(u), V.fn(v)
    t = m.DPhiTuneFinder(u, v)
    t.centre, t.ellipse = V.array(c), V.array(ell)
    if V.choice('stale', [0, 1]): t.dphi = V.list([0.25]); 
    def circ(i):
        a = (uf(i) - c[0]) / L[0][0]
        return a, (vf(i) - c[1] - L[1][0] * a) / L[1][1]
    if not V.conc:
        # numpy.linalg.cholesky by its contract: the lower factor with positive diagonal
        def chol(a):
            V.check('factor-of-the-ellipse', a is t.ellipse); return V.array(L)
        V.patch(V.np.linalg, 'cholesky', chol)
        V.trust('numpy.linalg.cholesky: the lower triangular factor with positive diagonal')
    ang = lambda i: (lambda p: V.m.atan2(p[1], p[0]))(circ(i))
    if V.conc:
        for i in range(n): V.assume(sum([q * q for q in circ(i)]) > 1e-6)
        for i in range(n - 1): V.assume(1e-6 < abs(ang(i) - ang(i + 1)) and abs(abs(ang(i)) - math.pi) > 1e-6 and abs(abs(ang(i + 1)) - math.pi) > 1e-6)
    V.listhint('circles', lambda i: V.array(list(circ(i))))
    V.listhint('adv', lambda i: turn(V, ang(i), ang(i + 1)))
    V.hint('old', lambda k: 0. - ang(k))
    t.get_dphi_list()
    V.seq_eq('advances', t.dphi, n - 1, lambda i: turn(V, ang(i), ang(i + 1)))
    V.forall('range', n - 1, lambda i: V.check('fraction', V.and_(turn(V, ang(i), ang(i + 1)) >= 0, turn(V, ang(i), ang(i + 1)) < 1)))
    V.eq('one-circle-point-per-datum', V.len(t.point_circles), n)
    V.seq_eq('data-kept', u, n, uf)

@contract('P25', 'tune', [DP + 'get_tune'], budget=90)
def tune(V):
    m = V.mod(M); n = V.size('n', 3)
    u, v = V.seq('u', n), V.seq('v', n); uf, vf = V.fn(u), V.fn(v)
    t = m.DPhiTuneFinder(u, v)
    if V.conc:
        import numpy
        V.assume(numpy.linalg.matrix_rank(numpy.cov(numpy.array([u, v])), tol=1e-3) == 2)
        r = t.get_tune()
        mean, cov = V.mod('xboa.common').fit_ellipse(list(zip(u, v)), 1e9, verbose=False)
        V.eq('centre', t.centre, mean); V.eq('ellipse', t.ellipse, cov)
        V.eq('mean-advance', r, sum(t.dphi) / len(t.dphi))
        V.eq('kept', t.tune, r)
        d = list(t.dphi); V.eq('repeatable', [t.get_tune(), list(t.dphi)], [r, d])
        return
    seen = []
    fit = (V.array(V.vec('mean', 2)), V.array([V.vec('c0', 2), V.vec('c1', 2)]))
    def ghost(points, cut, verbose=True):
        V.check('no-cut', cut >= 1e9); V.eq('points', V.len(points), n)
        V.forall('points', n, lambda i: V.eq('point', V.list(list(points[i])), V.list([uf(i), vf(i)])))
        seen.append(1); return fit
    V.patch(V.mod('xboa.common'), 'fit_ellipse', ghost)
    d = V.seq('adv', n - 1, 0, 1); df = V.fn(d)
    def adv():
        V.check('fitted-first', t.centre is fit[0] and t.ellipse is fit[1]); t.dphi = d
    t.get_dphi_list = adv
    V.patch(V.np, 'std', lambda x: V.real('spread'))
    S = V.fold('s', 0., lambda a, i: a + df(i))
    r = t.get_tune()
    V.check('fit-once', len(seen) == 1)
    V.eq('mean-advance', r, S.at(n - 1) / V.toreal(n - 1)); V.eq('kept', t.tune, r)

@contract('P25', 'refused', [DP + 'get_tune'])
def ref(V):
    m = V.mod(M); w = V.choice('which', [0, 1, 2])
    t = m.DPhiTuneFinder(None if w != 1 else V.list([1., 2.]), None if w != 2 else V.list([1., 2.]))
    V.raises('missing-data', ValueError, t.get_tune)

@contract('P25', 'from-tracking', [DP + 'run_tracking'])
def trk(V):
    m = V.mod(M)
    ref = V.hit('ref'); before = V.snapshot(ref)
    a1, a2 = V.choice('axes', [('x', 'px'), ('y', 'py'), ('t', 'energy')])
    n = V.choice('n', [0, 1, 2, 3]); outs = [V.hit('o%d' % i, only=('x', 'px', 'y', 'py', 't', 'energy')) for i in range(n)]
    use = V.choice('use', [None, [0], [0, 2], [1]])
    d1, d2 = V.real('d1'), V.real('d2'); got = []
    class T:
        def track_one(self, h):
            got.append(h); return V.list(outs)
    t = m.DPhiTuneFinder(); t.run_tracking(a1, a2, d1, d2, ref, T(), None if use is None else V.list(use))
    V.eq('tracked-once', len(got), 1)
    now = V.snapshot(got[0])
    for k in now: V.eq('start', now[k], before[k] + (d1 if k == a1 else d2 if k == a2 else 0))
    V.eq('reference-kept', V.snapshot(ref), before)
    sel = [h for i, h in enumerate(outs) if use is None or i in use]
    V.eq('u', [x for x in t.u], [V.raw(h, a1) for h in sel]); V.eq('up', [x for x in t.up], [V.raw(h, a2) for h in sel])

@contract('P25', 'rotation', [DP + 'get_tune', DP + 'get_dphi_list'], mode='bounded')
def rot(V):
    m = V.mod(M); n = V.integer('n', 4, 40); nu = V.real('nu', 0.01, 0.99)
    a, b, c, th = V.real('a', 0.3, 3), V.real('b', 0.3, 3), V.real('c', -2, 2), V.real('th', -3, 3)
    x0, y0 = V.real('x0', -5, 5), V.real('y0', -5, 5)
    ph = [th - 2 * math.pi * nu * i for i in range(n)]
    # points on the ellipse fitted by the finder: use whole periods so that mean and covariance are those of the ellipse
    k = V.integer('k', 1, n - 1); nu = k / float(n); ph = [th - 2 * math.pi * nu * i for i in range(n)]
    V.assume(math.gcd(k, n) == 1 and n > 2)
    u = [x0 + a * math.cos(p) for p in ph]; v = [y0 + c * math.cos(p) + b * math.sin(p) for p in ph]
    t = m.DPhiTuneFinder(u, v); r = t.get_tune()
    V.eq('number', len(t.dphi), n - 1)
    for q in t.dphi: V.eq('advance', q, nu, tol=1e-6)
    V.eq('tune', r, nu, tol=1e-6)
