"""P31 closed orbit finder"""
from dv.api import contract
CO = 'xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py:EllipseClosedOrbitFinder.'
IT = 'xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py:EllipseClosedOrbitFinderIteration.'
MOD = 'xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder'
VARS = ['x', 'px', 'y', 'py']

class Tracking(object):
    """hands out the hits it was told to, remembering what it was given"""
    def __init__(self, V, fn): self.V, self.fn, self.seen = V, fn, []
    def track_one(self, hit):
        self.seen.append(self.V.snapshot(hit)); return self.fn(len(self.seen) - 1, hit)

@contract('P31', 'points', [CO + '_get_points'], budget=120, tmo=20, bound='every content; up to 4 points wanted and up to 3 points from each tracking call')
def points(V):
    K = V.mod(MOD).EllipseClosedOrbitFinder; H = V.Hit()
    use_seed, want, per = V.choice('case', [(u, w, p) for u in (False, True) for w in range(5) for p in range(1, 4)])
    keys = [['x', 'px'], ['py', 'y', 't']][V.choice('variables', [0, 1])]
    seed = V.hit('seed', only=['x', 'px', 'y', 'py', 't', 'pz'])
    calls = []
    def fn(i, hit):
        hs = [hit.deepcopy()]
        for j in range(per):
            h = hit.deepcopy()
            for k in ('x', 'px', 'y', 'py', 't'): h[k] = V.real('t%d_%d_%s' % (i, j, k))
            h['z'] = 1000. + 1000. * len(calls) + j
            hs.append(h)
        calls.append(hs); return hs
    t = Tracking(V, fn)
    f = K(t, seed, 1e6, use_seed)
    old = V.snapshot(seed)
    x = f._get_points(keys, seed, want)
    exp = ([seed] if use_seed else [])
    n = len(exp)
    for hs in calls: exp = exp + hs[1:]
    V.check('enough-points', len(exp) >= want and (not calls or len(exp) - per < want))
    V.eq('number-of-points', V.len(x), len(exp))
    for i in range(len(exp)):
        V.eq('coordinates', x[i], [exp[i][k] for k in keys])
    for i, s in enumerate(t.seen):
        for k in s: V.eq('continues-from-the-last-hit', s[k], (old if i == 0 else V.snapshot(calls[i - 1][-1]))[k])
    new = V.snapshot(seed)
    for k in old: V.eq('seed-kept', new[k], old[k])

@contract('P31', 'no-ellipse', [CO + '_get_points'])
def noell(V):
    K = V.mod(MOD).EllipseClosedOrbitFinder
    seed = V.hit('seed', only=['x', 'px', 'y', 'py', 't'])
    t = Tracking(V, lambda i, hit: [hit.deepcopy(), hit.deepcopy()])
    V.raises('tracking-stuck', RuntimeError, K(t, seed)._get_points, ['x', 'px'], seed, 5)

def ghost_iteration(V, made, nkeys):
    """an ellipse fit that may come out anywhere"""
    class It(object):
        def __init__(self, keys, points, eps_max, calculate=False):
            i = len(made); made.append(self)
            self.keys, self.points, self.eps_max, self.calculate = keys, points, eps_max, calculate
            self.centre = V.list([V.real('centre%d_%d' % (i, j)) for j in range(nkeys)])
            self.mn = V.real('mean_noise%d' % i, 0); self.sg = V.real('sigma_noise%d' % i, 0)
        def get_mean_noise(self): return self.mn
        def get_sigma_noise(self): return self.sg
    return It

@contract('P31', 'iterations', [CO + 'find_closed_orbit_generator', CO + '__init__'], budget=150, tmo=20, bound='every seed, fit and noise; up to 3 iterations')
def iterations(V):
    """each iteration starts from the seed with the searched coordinates at the last fitted centre; it stops at the limit or once the noise is within tolerance"""
    M = V.mod(MOD)
    keys = ['x', 'px'] if V.choice('variables', [0, 1]) == 0 else ['py', 't', 'y']
    limit = V.choice('limit', [0, 1, 2, 3])
    fields = ['x', 'px', 'y', 'py', 't', 'pz', 'energy', 'mass', 'z', 'bx', 'local_weight', 'station', 'pid', 'event_number']
    seed = V.hit('seed', only=fields); old = V.snapshot(seed)
    made = []
    It = ghost_iteration(V, made, len(keys))
    def fn(i, hit):
        a, b = hit.deepcopy(), hit.deepcopy()
        b['x'] = hit['x'] + 1.; b['z'] = hit['z'] + 50.
        return [a, b]
    t = Tracking(V, fn)
    V.patch(M, 'EllipseClosedOrbitFinderIteration', It)
    f = M.EllipseClosedOrbitFinder(t, seed, 12.5)
    got = []
    for co in f.find_closed_orbit_generator(keys, 1, limit):
        got.append(co)
        V.check('iteration-limit', len(got) <= limit)
        if len(got) > limit: break
    V.check('yields-each-fit', len(got) == len(made) and all([got[i] is made[i] for i in range(len(got))]))
    stop = limit
    for i in range(limit):
        if i < len(made) and bool(made[i].mn < made[i].sg): stop = i + 1; break
    V.eq('number-of-iterations', len(got), stop)
    for i, co in enumerate(got):
        V.check('fit-settings', co.eps_max == 12.5 and list(co.keys) == keys)
        s = t.seen[i]
        for k in s:
            if k in keys and i > 0: V.eq('starts-from-the-fitted-centre', s[k], got[i - 1].centre[keys.index(k)])
            else: V.eq('other-coordinates-kept', s[k], old[k])
        V.eq('points-of-this-turn', co.points[0], [(s[k] + 1. if k == 'x' else s[k]) for k in keys])
    new = V.snapshot(seed)
    for k in old: V.eq('seed-kept', new[k], old[k])

@contract('P31', 'check', [CO + 'check_closed_orbit'], budget=100)
def check(V):
    M = V.mod(MOD)
    seed = V.hit('seed', only=['x', 'px', 'y', 'py', 't', 'pz', 'z', 'bx', 'local_weight', 'station', 'pid']); old = V.snapshot(seed)
    vals = {'y': V.real('test_y'), 'px': V.real('test_px')}
    log = []; sort = V.choice('singular', ['value', 'matrix'])
    class It(object):
        def __init__(self, keys, points, eps_max, calculate=False):
            self.keys, self.points, self.eps_max = keys, points, eps_max; log.append(self)
            if calculate: self.calculate_ellipse()
        def calculate_ellipse(self): raise (ValueError if sort == 'value' else V.np.linalg.LinAlgError)('singular')
    def fn(i, hit):
        b = hit.deepcopy(); b['x'] = hit['x'] + 1.
        return [hit.deepcopy(), b]
    t = Tracking(V, fn)
    V.patch(M, 'EllipseClosedOrbitFinderIteration', It)
    co = M.EllipseClosedOrbitFinder(t, seed, 3.).check_closed_orbit(dict(vals), 1)
    V.check('result', co is log[0] and list(co.keys) == ['px', 'y'] and co.eps_max == 3.)
    V.eq('tracked-once', len(t.seen), 1)
    for k in old: V.eq('start', t.seen[0][k], vals.get(k, old[k]))
    V.eq('points', co.points[0], [vals['px'], vals['y']])
    new = V.snapshot(seed)
    for k in old: V.eq('seed-kept', new[k], old[k])

@contract('P31', 'noise', [IT + '__init__', IT + 'get_mean_noise', IT + 'get_sigma_noise'], budget=100)
def noise(V):
    K = V.mod(MOD).EllipseClosedOrbitFinderIteration
    n = V.size('n', 1); xs = V.seq('noise', n, 0, 100 if V.conc else None); f = V.fn(xs)
    it = K(['x'], [[1.]], 1., False)
    order = V.choice('order', ['known', 'mean', 'sigma'])
    if order == 'known': it.noise = xs
    else:
        # not calculated before: the first that is asked for calculates it
        calls = []
        def calc(): calls.append(1); it.noise = xs
        it.calculate_ellipse = calc
        it.get_mean_noise() if order == 'mean' else it.get_sigma_noise()
        V.eq('calculated-once', len(calls), 1)
    S = V.fold('sum', 0., lambda a, i: a + f(i)); Q = V.fold('sq', 0., lambda a, i: a + f(i) * f(i))
    mean = S.at(n) / n
    V.eq('mean', it.get_mean_noise(), mean)
    var = Q.at(n) / n - mean * mean
    sg = it.get_sigma_noise()
    if V.conc:
        V.assume(var == 0. or abs(var) > 1e-9 * Q.at(n)); want = var ** 0.5 if var > 0 else 0.
        V.eq('sigma', sg, want, tol=1e-4)
    else:
        V.check('sigma-not-negative', sg >= 0)
        V.check('sigma', V.implies(var > 0, sg * sg == var)); V.check('sigma-degenerate', V.implies(var <= 0, sg == 0))

@contract('P31', 'ellipse', [IT + 'calculate_ellipse'], budget=120, tmo=20, bound='up to 3 points in 1 or 2 coordinates')
def ellipse(V):
    """the noise of a point is its amplitude about the fitted centre in the ellipse normalised to unit determinant"""
    M = V.mod(MOD); K = M.EllipseClosedOrbitFinderIteration
    d, n = V.choice('case', [(1, 1), (1, 3), (2, 2)])
    pts = [[V.real('p%d_%d' % (i, j), -10, 10) for j in range(d)] for i in range(n)]
    L = [[(V.real('l%d%d' % (i, j), 0.2, 4) if i == j else V.real('l%d%d' % (i, j), -2, 2)) if j <= i else 0. for j in range(d)] for i in range(d)]
    cov = [[sum([L[i][k] * L[j][k] for k in range(min(i, j) + 1)]) for j in range(d)] for i in range(d)]
    centre = V.vec('c', d, -5, 5); arr = V.np.array(V.list(centre)); cm = V.matrix(cov)
    def fit(points, eps_max, verbose=True, **k):
        V.check('fits-the-points', points is pl and eps_max == 7.); return arr, cm
    V.patch(M.common, 'fit_ellipse', fit)
    pl = V.list([V.list(p) for p in pts]) if not V.conc else [list(p) for p in pts]
    it = K(['x', 'px'][:d], pl, 7., True)
    V.eq('centre', it.centre, arr); V.eq('ellipse', it.ellipse, V.matrix(cov)); V.eq('count', V.len(it.noise), n)
    det = 1.
    for i in range(d): det = det * L[i][i] * L[i][i]
    root = det ** (1. / d)
    inv = [[1. / cov[0][0]]] if d == 1 else [[cov[1][1] / det, -cov[0][1] / det], [-cov[1][0] / det, cov[0][0] / det]]
    for i in range(n):
        v = [pts[i][j] - centre[j] for j in range(d)]
        V.eq('noise', it.noise[i], root * sum([v[j] * inv[j][k] * v[k] for j in range(d) for k in range(d)]), tol=1e-6)

@contract('P31', 'linear-map', [CO + 'find_closed_orbit_generator', IT + 'calculate_ellipse'], mode='bounded', runs=0.2)
def linear(V):
    """a stable linear map of rational phase advance: full turns average to the fixed point"""
    import math
    M = V.mod(MOD); H = V.Hit()
    q = V.choice('turns', [3, 4, 5, 7, 8]); p = V.choice('p', [1, 2]); V.assume(math.gcd(p, q) == 1)
    mu = 2 * math.pi * p / q; b = V.real('beta', 0.3, 5); a = V.real('alpha', -2, 2); g = (1 + a * a) / b
    c, s = math.cos(mu), math.sin(mu); m = [[c + a * s, b * s], [-g * s, c - a * s]]
    fx = V.real('fx', -10, 10); fp = V.real('fp', -10, 10)
    seed = H.new_from_dict({'x': fx + V.real('dx', 1, 5), 'px': fp + V.real('dp', -5, 5), 'pz': 200., 'energy': 226., 'mass': 105.658, 'y': 3., 'pid': -13})
    old = V.snapshot(seed)
    class T(object):
        def track_one(self, hit):
            out = [hit.deepcopy()]
            for i in range(q):
                h = out[-1].deepcopy(); x, px = h['x'] - fx, h['px'] - fp
                h['x'] = fx + m[0][0] * x + m[0][1] * px; h['px'] = fp + m[1][0] * x + m[1][1] * px; h['z'] = h['z'] + 1.; out.append(h)
            return out
    f = M.EllipseClosedOrbitFinder(T(), seed)
    k = 0
    for co in f.find_closed_orbit_generator(['x', 'px'], q, 3):
        k += 1
        V.eq('fixed-point', [float(co.centre[0]), float(co.centre[1])], [fx, fp], tol=1e-6, scale=30.)
        break
    V.eq('one-iteration', k, 1)
    new = V.snapshot(seed)
    for kk in old: V.eq('seed-kept', new[kk], old[kk])
