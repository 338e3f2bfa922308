"""P30 polynomial weighting"""
from dv.api import contract
from contracts.bunchlib import Moments
from contracts.p09 import scale, heavy
MW = 'xboa/bunch/weighting/_multipole_weighting.py:MultipoleWeighting.'
FNS = [MW + k for k in ('apply_weights', '_calculate_coefficients', '_v_f', '_v_g', '_setup', 'set_target_moments')]

def cls(V): return V.mod('xboa.bunch.weighting._multipole_weighting').MultipoleWeighting

def power(V, x, vs, ix):
    p = 1.
    for v, k in zip(vs, ix):
        for _ in range(k): p = p * x(v)
    return p

def cols(vs, ix): return [v for v, k in zip(vs, ix) for _ in range(k)]

CASES = [(['x'], 1, [[1]]), (['x'], 2, [[2]]), (['x', 'py'], 1, [[0, 1]]), (['x'], 2, [[2], [1]]), (['x', 'py'], 1, [[1, 0], [0, 1]])]
add = lambda a, c: [x + y for x, y in zip(a, c)]

def setup(V, case, n):
    vs, order, ts = case
    b, f = V.bunch(n)
    g = [V.real('target_%d' % i, -10, 10) for i in range(len(ts))]
    K = cls(V); m = K.__new__(K)
    m.maximum_moment = order; m.weight_variables = V.list(vs)
    m.v_f_list = m.v_g_list = m.v_f_index_by_power = m.v_g_index_by_power = None
    m.set_target_moments(V.list([V.list(t) for t in ts]), V.list(g))
    M = Moments(V, f, n); M.core(b)
    V.assume(M.total() > 0.001)
    ixs = sorted(zip(ts, g))
    F = lambda ix: M.moment(cols(vs, ix), {v: 0. for v in vs})
    tt = [t for t, _ in ixs]; gg = [y for _, y in ixs]; N = len(tt)
    def solution():
        mat = [[F(add(tt[i], tt[j])) - gg[i] * F(tt[j]) for j in range(N)] for i in range(N)]
        u = [gg[i] - F(tt[i]) for i in range(N)]
        V.assume(V.det(mat) != 0.)
        inv = V.np.linalg.inv(V.array(mat))
        r = []
        for i in range(N):
            t = 0
            for j in range(N): t = t + inv[i, j] * u[j]
            r.append(t)
        return r
    return b, f, m, tt, solution

def check_weights(V, case, n, b, f, m, tt, A):
    vs = case[0]; N = len(tt)
    x = lambda i: (lambda v: f.old(v, i))
    def poly(i):
        r = 1.
        for j in range(N): r = r + A[j] * power(V, x(i), vs, tt[j])
        return r
    S = V.fold('sum_weights', 0., lambda acc, i: acc + poly(i) / V.toreal(n))
    tot = S.at(n); V.assume(tot != 0.)
    for v in vs: V.listhint('values_' + v, (lambda v: lambda i: f.old(v, i))(v))
    V.prefixhint('multiplied', lambda i: f.old('local_weight', i) * poly(i), (f.name, 'local_weight'))
    V.prefixhint('normalised', lambda i: f.old('local_weight', i) * poly(i) / tot, (f.name, 'local_weight'))
    m.apply_weights(b, False)
    def one(i):
        for k in f.fields:
            if k != 'local_weight': V.eq('coordinates-kept', f.rd(k, i), f.old(k, i))
        V.eq('weight-is-multiplied-by-the-polynomial', f.rd('local_weight', i), f.old('local_weight', i) * poly(i) / tot)
    V.forall('every-hit', n, one)

def end_to_end(case):
    def body(V):
        """every local weight is multiplied by 1 + sum a_j x^g_j over its mean, with a = M^-1 u; every coordinate is kept"""
        if V.conc: V.assume(False)
        n = V.size('n', 1)
        b, f, m, tt, solution = setup(V, case, n)
        A = []
        for i, s in enumerate(solution()):
            a = V.real('a_%d' % i); V.assume(a == s); A.append(a)
        check_weights(V, case, n, b, f, m, tt, A)
    return body

def modular_weights(case):
    def body(V):
        """the same for given coefficients"""
        if V.conc: V.assume(False)
        n = V.size('n', 1)
        b, f, m, tt, solution = setup(V, case, n)
        A = [V.real('a_%d' % i) for i in range(len(tt))]
        V.patch(cls(V), '_calculate_coefficients', lambda self, bunch: V.array(A))
        check_weights(V, case, n, b, f, m, tt, A)
    return body

def coefficients(case):
    def body(V):
        """a = M^-1 u with M_ij = f_ij - g_i f_j and u_i = g_i - f_i, in the order of the sorted targets"""
        if V.conc: V.assume(False)
        n = V.size('n', 1)
        b, f, m, tt, solution = setup(V, case, n)
        ok, r = V.attempt(m._calculate_coefficients, b)
        if not ok:      # a singular system is refused by the linear algebra
            V.check('refused-as-singular', isinstance(r, V.np.linalg.LinAlgError)); return
        want = solution()
        for i in range(len(tt)): V.eq('coefficient', r[i], want[i])
    return body

def lemma_of(case):
    vs, order, ts = case
    def body(V):
        """weights multiplied by the polynomial have the target moments"""
        if V.conc: V.assume(False)
        n = V.size('n', 1)
        b, f = V.bunch(n)
        tt = sorted(ts); N = len(tt)
        gg = [V.real('target_%d' % i, -10, 10) for i in range(N)]; A = [V.real('a_%d' % i) for i in range(N)]
        M = Moments(V, f, n)
        V.assume(M.total() > 0.001)
        F = lambda ix, k: M.fold(cols(vs, ix)).at(k, *([0.] * sum(ix)))
        W = M.total()
        for i in range(N):
            row = 0.
            for j in range(N): row = row + (F(add(tt[i], tt[j]), n) - gg[i] * F(tt[j], n)) * A[j]
            V.assume(row == gg[i] * W - F(tt[i], n))
        x = lambda i: (lambda v: f.old(v, i))
        def w2(i):
            r = 1.
            for j in range(N): r = r + A[j] * power(V, x(i), vs, tt[j])
            return f.weight_old(i) * r
        new_total = V.fold('new_total', 0., lambda acc, i: acc + w2(i))
        def expand(fold, ix):
            def pred(k):
                r = M.W.at(k) if not sum(ix) else F(ix, k)
                for j in range(N): r = r + A[j] * F(add(tt[j], ix), k)
                return fold.at(k) == r
            return pred
        V.induct('total-expands', n, expand(new_total, [0] * len(vs)))
        for i in range(N):
            new = V.fold('new_%d' % i, 0., lambda acc, q, i=i: acc + w2(q) * power(V, x(q), vs, tt[i]))
            V.induct('moment-expands', n, expand(new, tt[i]))
            V.eq('weighted-moment-is-the-target', new.at(n), gg[i] * new_total.at(n))
    return body

@contract('P30', 'lemma-scaling', FNS[:1], sym_only=True)
def scaling(V):
    """dividing every weight by the same number divides every weighted sum by it, so the normalisation leaves the weighted moments alone"""
    if V.conc: V.assume(False)
    n = V.size('n', 1); c = V.ufun('c', 1); tot = V.real('mean_polynomial'); V.assume(tot != 0.)
    u = V.fold('plain', 0., lambda acc, i: acc + c(i))
    s = V.fold('scaled', 0., lambda acc, i: acc + c(i) / tot)
    V.induct('scaled', n, lambda k: s.at(k) == u.at(k) / tot)
    V.eq('scaled-sum', s.at(n), u.at(n) / tot)

for c_ in CASES:
    t_ = ''.join(c_[0]) + '-' + '/'.join(''.join(str(k) for k in t) for t in c_[2]); o_ = dict(sym_only=True, budget=200, tmo=20, bound='variables, order and target indices %s' % (c_,))
    if len(c_[2]) == 1: contract('P30', 'weights-' + t_, FNS, **o_)(end_to_end(c_))
    else:
        contract('P30', 'weights-' + t_, [FNS[0]] + FNS[5:], **o_)(modular_weights(c_))
        contract('P30', 'coefficients-' + t_, FNS[1:], **o_)(coefficients(c_))
    contract('P30', 'lemma-' + t_, FNS[:1], **o_)(lemma_of(c_))

def indices(d, order):
    return [[]] if d == 0 else [[i] + r for i in range(order + 1) for r in indices(d - 1, order - i)]

def shuffle(V, l):
    l = list(l)
    for i in range(len(l) - 1, 0, -1):
        j = V.choice('swap', range(i + 1)); l[i], l[j] = l[j], l[i]
    return l

def random_bunch(V, vs, lo=12):
    n = V.size('n', lo)
    b = V.Bunch()(); hits = []
    for i in range(n):
        kw = {v: V.real(v, -3, 3) for v in vs}
        h = V.hit('h%d' % i, only=[], event_number=i, local_weight=V.real('lw', 0.2, 2.), t=V.real('t', -5, 5), **kw)
        h['global_weight'] = V.real('gw', 0.2, 2.)
        b.append(h); hits.append(h)
    return b, hits, n

def raw(hits, vs, ix): return sum(h['weight'] * power(None, lambda v: h[v], vs, ix) for h in hits) / sum(h['weight'] for h in hits)

@contract('P30', 'random-targets', FNS + [MW + '_moments_from_ellipse', MW + '__init__'], mode='bounded', runs=60, maxn=40, bound='random bunches of 12 to 40 hits, one to three variables, order at most 2')
def random_targets(V):
    vs = V.choice('vars', [['x'], ['x', 'py'], ['py', 'x'], ['x', 'px', 'y']]); d = len(vs)
    glob = V.choice('global', [False, True])
    if V.choice('from', ['ellipse', 'list']) == 'ellipse':
        b, hits, n = random_bunch(V, vs, 20)
        base = [raw(hits, vs, [int(i == k) for k in range(d)]) for i in range(d)]
        mean = [0.] * d
        cov = V.np.array([[raw(hits, vs, [int(i == k) + int(j == k) for k in range(d)]) for i in range(d)] for j in range(d)])
        for i in range(d): cov[i, i] *= V.real('scale', 0.9, 1.1)
        m = cls(V)(2, vs, cov, mean)
        want = [([int(i == k) for k in range(d)], 0.) for i in range(d)] + [([int(i == k) + int(j == k) for k in range(d)], cov[i, j]) for i in range(d) for j in range(i, d)]
    else:
        b, hits, n = random_bunch(V, vs)
        every = [ix for ix in indices(d, 2) if 0 < sum(ix)]
        every = shuffle(V, every); every = every[:V.choice('how_many', [1, 2, 3])]
        want = [(ix, raw(hits, vs, ix) * V.real('factor', 0.9, 1.1) + V.real('shift', -.1, .1)) for ix in every]
        m = cls(V)(2, vs, V.np.eye(d), [0.] * d)
        m.set_target_moments([list(i) for i, _ in want], [v for _, v in want])
    before = [(h['local_weight'], h['global_weight'], {k: h[k] for k in V.DOUBLES + V.INTS if k != 'local_weight'}) for h in hits]
    ok, r = V.attempt(m.apply_weights, b, glob)
    V.assume(ok or not isinstance(r, V.np.linalg.LinAlgError))
    if not ok: raise r
    total = sum(h['weight'] for h in hits); spread = sum(abs(h['weight']) for h in hits)
    V.assume(abs(total) > 1e-3 * spread)
    for ix, v in want: V.eq('weighted-moment-is-the-target', raw(hits, vs, ix), v, tol=1e-6, scale=spread / abs(total) * 30)
    V.eq('same-hits', len(b), n)
    for i, h in enumerate(hits):
        V.check('same-hits', b[i] is h or b[i]['event_number'] == i)
        lw, gw, rest = before[i]
        V.eq('the-other-weight-is-kept', h['global_weight'] if not glob else h['local_weight'], gw if not glob else lw)
        for k in rest: V.eq('coordinates-kept', h[k], rest[k])

@contract('P30', 'refusals', [MW + 'set_target_moments', MW + '_v_f'], mode='bounded', runs=60, maxn=20, bound='one to three variables, up to five target indices')
def refusals(V):
    vs = V.choice('vars', [['x'], ['x', 'py'], ['x', 'px', 'y']]); d = len(vs)
    m = cls(V)(2, vs, V.np.eye(d), [0.] * d)
    keep = (m.v_g_index_by_power, m.v_g_list)
    every = [ix for ix in indices(d, 2) if 0 < sum(ix)]; every = shuffle(V, every)
    k = V.choice('how_many', [1, 2, 3, 5]); idx = [list(i) for i in every[:k]]; val = [V.real('target', -2, 2) for _ in idx]
    j = V.choice('which', range(len(idx))); bad = V.choice('bad', ['values', 'short', 'long', 'float', 'duplicate', 'text', 'beyond'])
    if bad == 'values': val = val[:-1] if V.choice('fewer', [True, False]) else val + [0.]
    elif bad == 'short': idx[j] = idx[j][:-1]
    elif bad == 'long': idx[j] = idx[j] + [0]
    elif bad == 'float': idx[j][-1] = float(idx[j][-1])
    elif bad == 'text': idx[j][-1] = '1'
    elif bad == 'duplicate': idx.insert(V.choice('at', range(len(idx) + 1)), list(idx[j])); val.append(1.)
    else:
        idx = [i for i in idx if len(i) == d][:2]; idx.insert(V.choice('at', range(len(idx) + 1)), [3] + [0] * (d - 1)); val = [1.] * len(idx)
        m.set_target_moments(idx, val)
        b, hits, n = random_bunch(V, vs)
        before = [h['weight'] for h in hits]
        V.raises('moments-beyond-the-order-refused', Exception, m.apply_weights, b, False)
        for h, w in zip(hits, before): V.eq('weights-kept', h['weight'], w)
        return
    V.raises('refused', ValueError, m.set_target_moments, idx, val)
    V.check('earlier-targets-kept', (m.v_g_index_by_power, m.v_g_list) == keep)
