"""P29 bounding ellipse"""
from dv.api import contract
BE = 'xboa/bunch/weighting/_bounding_ellipse.py:BoundingEllipse.'
MOD = 'xboa.bunch.weighting._bounding_ellipse'

def spd(V, d):
    L = [[(V.real('l%d%d' % (i, j), 0.2, 4) if i == j else V.real('l%d%d' % (i, j), -2, 2)) if j <= i else 0. for j in range(d)] for i in range(d)]
    return L, [[sum([L[i][k] * L[j][k] for k in range(min(i, j) + 1)]) for j in range(d)] for i in range(d)]

@contract('P29', 'cut', [BE + 'cut_on_bound'], budget=150, tmo=20, bound='up to 4 points in one dimension, 3 in two, 2 in three')
def cut(V):
    K = V.mod(MOD).BoundingEllipse
    d, n = V.choice('case', [(d, n) for d in (1, 2, 3, 4) for n in range(9)] if V.conc else [(1, 0), (1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2)])
    if V.conc: L, inv = spd(V, d)
    else: inv = [[V.real('inv%d%d' % (min(i, j), max(i, j))) for j in range(d)] for i in range(d)]
    mean = V.vec('mean', d, -2, 2)
    w = 1.2 if V.conc else None
    pts = [[V.real('p%d_%d' % (i, j), -w if w else None, w) + (mean[j] if V.conc else 0.) for j in range(d)] for i in range(n)]
    e = K.__new__(K)
    e.dim = d; e.ellipse_inv = V.array(inv); e.mean = V.array(mean) if V.choice('mean-type', [0, 1]) else V.list(mean)
    def arg(i):
        v = [pts[i][j] - mean[j] for j in range(d)]
        return sum([v[j] * inv[j][k] * v[k] for j in range(d) for k in range(d)])
    if V.conc:
        import numpy
        for i in range(n): V.assume(abs(arg(i) - 1.) > 1e-7)
        arr = numpy.array(pts) if n else numpy.zeros((0, d))
    else: arr = V.array(pts) if n else V.np.zeros((0, d))
    kept, index = e.cut_on_bound(arr)
    want = [i for i in range(n) if bool(arg(i) <= 1.)]
    V.eq('positions', [V.toreal(x) for x in index], [float(x) for x in want])
    V.eq('count', V.len(kept), len(want))
    for k, i in enumerate(want):
        for j in range(d): V.eq('points-unchanged', kept[k][j], pts[i][j])
    V.eq('caller-array-kept', list(arr.shape), [n, d])
    for i in range(n):
        for j in range(d): V.eq('caller-array-kept', arr[i][j], pts[i][j])

@contract('P29', 'limits', [BE + '__init__'], budget=120, tmo=20)
def limits(V):
    M = V.mod(MOD); K = M.BoundingEllipse
    d = V.choice('d', [1, 2, 3, 4] if V.conc else [1, 2, 3])
    L, cov = spd(V, d)
    mean = V.vec('mean', d, -5, 5)
    npd = V.choice('points-per-dimension', [3, 4] if V.conc else [3])
    cm = V.array(cov)
    mn = V.array(mean)
    if not V.conc:
        npts = 2
        sh = [[V.real('s%d_%d' % (i, j)) for j in range(d)] for i in range(npts)]
        def ghost(n_points, ellipse, *a):
            V.check('shell-of-the-limit', n_points == npd and ellipse is cm)
            return V.matrix(sh) if False else V.list([V.matrix([r]) for r in sh])
        V.patch(M.common, 'make_shell', ghost)
        V.trust("make_shell returns one row vector per shell point (contract P22 'shell')")
        if d == 1: pass
    e = K(cm, mn, npd)
    V.eq('dimension', e.dim, d)
    for j in range(d): V.eq('centre', e.mean[j], mean[j])
    for i in range(d):
        for j in range(d):
            V.eq('inverse', sum([e.ellipse_inv[i, k] * cov[k][j] for k in range(d)]), 1. if i == j else 0., tol=1e-5)
    bp = e.bounding_points
    if not V.conc:
        V.eq('boundary-shape', list(bp.shape), [npts, d])
        for i in range(npts):
            for j in range(d): V.eq('boundary-points', bp[i][j], sh[i][j] + mean[j])
    else:
        grid = npd ** d - (1 if npd % 2 else 0)
        V.eq('boundary-shape', list(bp.shape), [grid, d])
        for p in bp:
            v = [p[j] - mean[j] for j in range(d)]
            V.eq('on-the-ellipse', sum([v[j] * e.ellipse_inv[j, k] * v[k] for j in range(d) for k in range(d)]), 1., tol=1e-5)
    # the boundary is kept inside: a cut on any centre point keeps it
    kept, idx = e.cut_on_bound(V.array([mean]))
    V.eq('centre-kept', [len(idx), V.len(kept)], [1, 1])

@contract('P29', 'refused', [BE + '__init__'])
def refused(V):
    K = V.mod(MOD).BoundingEllipse
    i2 = V.matrix([[1., 0.], [0., 1.]])
    case = V.choice('case', range(8))
    args = [(V.matrix([[1., 0., 0.], [0., 1., 0.]]), V.array([0., 0.]), 3), (i2, V.array([0., 0., 0.]), 3), (i2, V.array([0.]), 3), (i2, V.array([0., 0.]), 0),
            (i2, V.array([0., 0.]), -1), (i2, V.array([0., 0.]), 3.), (i2, V.array([0., 0.]), '3'), (V.matrix([[1., 0.], [0., 1.], [0., 0.]]), V.array([0., 0., 0.]), 3)][case]
    V.raises('refused', ValueError, K, *args)
