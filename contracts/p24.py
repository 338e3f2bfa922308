"""P24 ellipse fit"""
from dv.api import contract
COM = 'xboa/common/_common.py:'
C = 'xboa.common._common'

def pts(V, d, n):
    qs = [V.seq('p%d' % j, n, -20 if V.conc else None, 20 if V.conc else None) for j in range(d)]
    fs = [V.fn(q) for q in qs]
    if V.conc: return [[qs[j][i] for j in range(d)] for i in range(n)], fs
    return V.vlist(n, lambda i: V.list([f(i) for f in fs])), fs

@contract('P24', 'sum-weight', [COM + '_sum_weight'])
def sw(V):
    c = V.mod(C); n = V.size('n')
    w = V.seq('w', n); u = V.seq('cut', n, 0, 1, kind='I')
    wf, uf = V.fn(w), V.fn(u)
    cut = [x == 1 for x in u] if V.conc else V.vlist(n, lambda i: uf(i) == 1)
    f = V.fold('s', 0., lambda a, i: a + V.ite(uf(i) == 1, wf(i), 0.))
    V.eq('weight-in-cut', c._sum_weight(w, cut), f.at(n))

@contract('P24', 'mean-and-covariance', [COM + '_get_fit_ellipse_covariance_matrix'], budget=150)
def mc(V):
    c = V.mod(C); d = V.choice('d', [1, 2, 3, 4, 5, 6] if V.conc else [1, 2, 3, 4])
    n = V.size('n', 1)
    p, fs = pts(V, d, n)
    w = V.seq('w', n, 0.1 if V.conc else None); u = V.seq('cut', n, 0, 1, kind='I')
    wf, uf = V.fn(w), V.fn(u)
    cut = [x == 1 for x in u] if V.conc else V.vlist(n, lambda i: uf(i) == 1)
    if V.conc: W = sum([w[i] for i in range(n) if u[i] == 1]); V.assume(abs(W) > 1e-3)
    else:
        W = V.real('W', nz=True)
        def ghost(weights, in_cut):
            V.check('sum-weight-arguments', weights is w and in_cut is cut); return W
        V.patch(c, '_sum_weight', ghost)
    M = [V.fold('m%d' % j, 0., lambda a, i, j=j: a + V.ite(uf(i) == 1, fs[j](i) / W * wf(i), 0.)) for j in range(d)]
    S = {(j, k): V.fold('s%d%d' % (j, k), 0., lambda a, i, j=j, k=k: a + V.ite(uf(i) == 1, fs[j](i) * fs[k](i) / W * wf(i), 0.)) for k in range(d) for j in range(k + 1)}
    mean, cov = c._get_fit_ellipse_covariance_matrix(p, w, cut)
    sc = 1. + max([abs(x) for r in p for x in r] + [0.]) ** 2 if V.conc else None
    V.eq('shape', [len(mean), list(cov.shape)], [d, [d, d]])
    for j in range(d): V.eq('mean', mean[j], M[j].at(n), scale=sc)
    for j in range(d):
        for k in range(d): V.eq('covariance', cov[j, k], S[min(j, k), max(j, k)].at(n) - M[j].at(n) * M[k].at(n), scale=sc)

@contract('P24', 'cut', [COM + '_update_fit_ellipse_cut'], budget=150)
def cut(V):
    c = V.mod(C); d = V.choice('d', [1, 2, 3, 4] if V.conc else [1, 2, 3]); n = V.size('n', 1)
    p, fs = pts(V, d, n)
    L = [[(V.real('l%d%d' % (i, j), 0.2, 3) if i == j else V.real('l%d%d' % (i, j), -2, 2)) if j <= i else 0. for j in range(d)] for i in range(d)]
    inv = [[sum([L[i][k] * L[j][k] for k in range(d)]) for j in range(d)] for i in range(d)]
    mean = V.vec('mean', d, -5, 5); eps = V.pos('eps', 60)
    r = 1.
    for i in range(d): r = r * L[i][i] * L[i][i]          # determinant
    root = r ** (1. / d)
    def amp(i):
        v = [fs[j](i) - mean[j] for j in range(d)]
        return sum([v[j] * inv[j][k] * v[k] for j in range(d) for k in range(d)])
    V.prefixhint('in', lambda i: amp(i) / root < eps)
    m, e = V.array(inv), V.array(mean)
    if V.conc:
        for i in range(n): V.assume(abs(amp(i) / root - eps) > 1e-6 * (1 + eps))
    res = c._update_fit_ellipse_cut(p, m, e, eps)
    V.eq('length', V.len(res), n)
    V.forall('selection', n, lambda i: V.check('inside-exactly', bool(res[i]) == bool(amp(i) / root < eps)))

@contract('P24', 'iteration', [COM + 'fit_ellipse'], budget=150)
def it(V):
    """the fit proper: callees by their contracts"""
    c = V.mod(C); d = V.choice('d', [2, 3] if V.conc else [2]); n = V.size('n', 2)
    mi = V.choice('max', [0, 1, 2, 3, 10] if V.conc else [0, 1, 2])
    p, fs = pts(V, d, n)
    unit = V.choice('unit-weights', [False, True])
    w = None if unit else V.seq('w', n, 0.1 if V.conc else None)
    eps = V.pos('eps')
    log = []
    real = (c._get_fit_ellipse_covariance_matrix, c._update_fit_ellipse_cut)
    def g1(points, weights, in_cut):
        i = len(log) // 2
        V.check('points-handed-on', points is p)
        if unit: V.forall('unit-weight', n, lambda k: V.eq('unit', weights[k], 1.))
        else: V.check('weights-handed-on', weights is w)
        V.eq('selection-size', V.len(in_cut), n)
        if i == 0: V.forall('all-points-first', n, lambda k: V.check('first-iteration-uses-all', bool(in_cut[k]) == True))
        else: V.check('previous-selection', in_cut is log[-1])
        if V.conc: r = real[0](points, weights, in_cut)
        else: r = (V.array(V.vec('m%d' % i, d)), V.array([V.vec('c%d_%d' % (i, j), d) for j in range(d)]))
        log.append(r); return r
    def g2(points, cov_inv, mean, cut):
        i = len(log) // 2
        V.check('cut-arguments', points is p and cut is eps and mean is log[-1][0])
        cov = log[-1][1]
        if not V.conc:
            for a in range(d):
                for b in range(d): V.eq('inverse', sum([cov_inv[a, k] * cov[k, b] for k in range(d)]), 1. if a == b else 0.)
            u = V.seq('cut%d' % i, n, 0, 1, kind='I'); uf = V.fn(u)
            r = V.vlist(n, lambda k: uf(k) == 1)
        else: r = real[1](points, cov_inv, mean, cut)
        log.append(r); return r
    V.patch(c, '_get_fit_ellipse_covariance_matrix', g1); V.patch(c, '_update_fit_ellipse_cut', g2)
    try: mean, cov = c.fit_ellipse(p, eps, w, mi, verbose=False)
    finally:
        if V.conc: c._get_fit_ellipse_covariance_matrix, c._update_fit_ellipse_cut = real
    fits = [x for x in log if isinstance(x, tuple)]
    V.check('iterations-bounded', len(fits) <= mi)
    if mi > 0:
        V.check('at-least-one', len(fits) >= 1)
        V.check('last-fit-returned', mean is fits[-1][0] and cov is fits[-1][1])
    else: V.check('nothing-done', len(log) == 0)

@contract('P24', 'no-outliers', [COM + 'fit_ellipse'], mode='bounded')
def no(V):
    c = V.mod('xboa.common'); d = V.choice('d', [2, 3, 4]); n = V.size('n', d + 2)
    p, fs = pts(V, d, n); w = V.seq('w', n, 0.1, 3.)
    import numpy
    P = numpy.array(p); W = numpy.array(w); m = (W[:, None] * P).sum(0) / W.sum(); D = P - m
    cv = (W[:, None, None] * D[:, :, None] * D[:, None, :]).sum(0) / W.sum()
    V.assume(abs(numpy.linalg.det(cv)) > 1e-3)
    keep = [list(r) for r in p]; kw = list(w)
    mean, cov = c.fit_ellipse(p, 1e9, w, verbose=False)
    V.eq('mean', mean, m, tol=1e-6); V.eq('covariance', cov, cv, tol=1e-6, scale=abs(P).max() ** 2)
    V.eq('points-kept', p, keep); V.eq('weights-kept', w, kw)
