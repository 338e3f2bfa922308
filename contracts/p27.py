"""P27 smoothing"""
from dv.api import contract
GS = 'xboa/algorithms/smoothing/_gaussian_smoothing.py:GaussianSmoothing.'
CS = 'xboa/algorithms/smoothing/_cut_smoothing.py:CutSmoothing.'

def kernel(V, K, adjust, R, sigma):
    """a smoother whose kernel satisfies the 'kernel' contract"""
    s = K.__new__(K)
    s.sigma, s.range_ = sigma, R
    W = lambda j: V.m.exp(-((V.toreal(j) - R) * (V.toreal(j) - R)) / (2. * sigma * sigma))
    s._weights = V.vlist(2 * R + 1, W)
    return s, W

@contract('P27', 'kernel', [GS + '__init__'], budget=60)
def kern(V):
    K = V.mod('xboa.algorithms.smoothing').GaussianSmoothing
    R = V.integer('range', 0, 12 if V.conc else None); sigma = V.real('sigma', 0.2 if V.conc else 0, 30 if V.conc else None, lo_open=True)
    adjust = V.choice('adjust', [True, False])
    W = lambda j: V.m.exp(-((V.toreal(j) - R) * (V.toreal(j) - R)) / (2. * sigma * sigma))
    T = V.fold('total', 0., lambda a, j: a + W(j))
    s = K(sigma, R, adjust)
    V.seq_eq('weights', s._weights, 2 * R + 1, W)
    V.eq('settings', [s.sigma, s.range_], [sigma, R])
    if adjust: V.check('no-fixed-norm', s.norm is None)
    else: V.eq('full-kernel-sum', s.norm, T.at(2 * R + 1))

@contract('P27', 'one-value', [GS + '_smooth_one'], budget=150)
def one(V):
    K = V.mod('xboa.algorithms.smoothing').GaussianSmoothing
    R = V.integer('range', 0, 7 if V.conc else None); sigma = V.real('sigma', 0.2 if V.conc else 0, 30 if V.conc else None, lo_open=True)
    adjust = V.choice('adjust', [True, False])
    s, W = kernel(V, K, adjust, R, sigma)
    n = V.size('n', 1); x = V.seq('x', n); f = V.fn(x); i = V.integer('i', 0, n - 1)
    s0 = i - R if bool(i - R > 0) else 0
    s1 = i + R + 1 if bool(i + R + 1 < n) else n
    w0 = s0 - i + R; m = s1 - s0
    G = V.fold('norm', 0., lambda a, j: a + W(w0 + j))
    norm = G.at(m)
    if adjust:
        s.norm = None
        V.induct('norm-not-negative', m, lambda k: G.at(k) >= 0)
        if not V.conc: V.inst(G, 0)
        V.induct('norm-positive', m, lambda k: G.at(k) > 0, lo=1)
    else: s.norm = norm = V.real('norm', 0.1 if V.conc else 0, lo_open=True)
    F = V.fold('sum', 0., lambda a, j: a + W(w0 + j) * f(s0 + j) / norm)
    V.eq('value', s._smooth_one(x, i), F.at(m))
    V.seq_eq('input-kept', x, n, f)

@contract('P27', 'average', [GS + '_smooth_one'], budget=120, runs=0.5)
def avg(V):
    """lemma over 'one-value': with adjusted normalisation a constant is unchanged and the range is kept"""
    K = V.mod('xboa.algorithms.smoothing').GaussianSmoothing
    n = V.size('n', 1)
    lo = V.real('lo'); hi = lo + V.pos('span')
    if V.conc:
        R = V.integer('range', 0, 7); sigma = V.real('sigma', 0.2, 30)
        x = V.seq('x', n, lo, hi)
        s = K(sigma, R, True)
        for v in s.smooth(x): V.check('range', lo - 1e-9 * (abs(lo) + abs(hi) + 1) <= v <= hi + 1e-9 * (abs(lo) + abs(hi) + 1))
        for v in s.smooth([lo] * n): V.eq('constant', v, lo)
        return
    # value() = F(m) by contract 'one-value', with weights w(j) > 0 and norm G(m) > 0
    wu = V.ufun('w', 1); x = V.seq('x', n, lo, hi); f = V.fn(x)
    w = lambda j: V.m.exp(wu(V.toreal(j)))
    m = n
    G = V.fold('norm', 0., lambda a, j: a + w(j)); V.inst(G, 0)
    V.induct('norm-positive', m, lambda k: G.at(k) > 0, lo=1)
    norm = G.at(m)
    S = V.fold('plain', 0., lambda a, j: a + w(j) * f(j))
    F = V.fold('sum', 0., lambda a, j: a + w(j) * f(j) / norm)
    C = V.fold('const', 0., lambda a, j: a + w(j) * lo / norm)
    V.induct('range-plain', m, lambda k: V.and_(lo * G.at(k) <= S.at(k), S.at(k) <= hi * G.at(k)))
    V.induct('scaled', m, lambda k: F.at(k) == S.at(k) / norm)
    V.induct('constant-scaled', m, lambda k: C.at(k) == lo * G.at(k) / norm)
    V.eq('constant', C.at(m), lo)
    V.check('range', V.and_(lo <= F.at(m), F.at(m) <= hi))

@contract('P27', 'whole-signal', [GS + 'smooth'])
def whole(V):
    K = V.mod('xboa.algorithms.smoothing').GaussianSmoothing
    n = V.size('n'); x = V.seq('x', n); f = V.fn(x)
    s = K(2., 3, True)
    if V.conc: g = lambda i: s._smooth_one(x, i)
    else:
        u = V.ufun('one', 1); g = lambda i: u(V.toreal(i))
        def ghost(sig, i):
            V.check('signal-handed-on', sig is x); return g(i)
        s._smooth_one = ghost
    V.seq_eq('values', s.smooth(x), n, g)
    V.seq_eq('input-kept', x, n, f)

@contract('P27', 'cut', [CS + 'smooth_table', CS + 'smooth'], budget=150, paths=4000, bound='columns of up to 4 values, blocks of up to 5')
def cut(V):
    K = V.mod('xboa.algorithms.smoothing').CutSmoothing
    if V.conc: n = V.integer('n', 1, 12); step = V.integer('step', 1, 7); nc = V.choice('cols', [1, 2, 3])
    else: n, step, nc = V.choice('case', [(n, s, c) for n in (1, 2, 3, 4) for s in (1, 2, 3, 5) for c in (1, 2) if n < 4 or c == 2])
    tgt = V.choice('target', list(range(nc)))
    cols = [[float(v) for v in V.seq('c%d' % c, n, -4, 4, kind='I')] if V.conc else V.vec('c%d' % c, n) for c in range(nc)]
    cutr = V.real('cut', 0, 6)
    sig = cols[tgt]
    dev = []
    for j in range(n):
        b = j // step
        if (b + 1) * step <= n: blk = sig[b * step:(b + 1) * step]
        else: blk = sig[max(0, n - step):n]
        dev.append(abs(sig[j] - sum(blk) / len(blk)))
    if V.conc:
        for q in dev: V.assume(abs(q - cutr) > 1e-9)
    table = V.list([V.list(c) for c in cols])
    if nc == 1 and V.choice('interface', [0, 1]): out = V.list([K(cutr, step).smooth(table[0])])
    else: out = K(cutr, step).smooth_table(table, tgt)
    keep = [j for j in range(n) if not bool(dev[j] > cutr)]
    V.eq('columns', len(out), nc)
    for c in range(nc):
        V.eq('rows', [v for v in out[c]], [cols[c][j] for j in keep])
        V.eq('input-kept', [v for v in table[c]], cols[c])

@contract('P27', 'cut-refused', [CS + 'smooth_table'])
def ref(V):
    K = V.mod('xboa.algorithms.smoothing').CutSmoothing
    n = V.choice('n', [1, 2, 3]); m = V.choice('m', [0, 1, 2, 3, 4]); V.assume(m != n)
    table = V.list([V.list(V.vec('a', n)), V.list(V.vec('b', m))])
    V.raises('uneven-columns', IndexError, K(1., 1).smooth_table, table, V.choice('t', [0, 1]))
