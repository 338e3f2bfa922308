"""P10 covariance matrices"""
from dv.api import contract
from contracts.bunchlib import Moments
from contracts.corelib import Core
from contracts.p09 import scale, heavy
BUN = 'xboa/bunch/_bunch.py:Bunch.'
ALL = ['x', 'px', 'y', 'py', 'z', 'pz', 't', 'energy', 'ct', 'energy']

def sc(V, m, vs, c): return V.conc and scale(V, m, vs, c) or None

@contract('P10', 'covariance', [BUN + 'covariance_matrix', BUN + 'moment', BUN + 'mean'], budget=200, tmo=20, bound='every content of the bunch and every number of hits; lists of 1 to 3 variables')
def cov(V):
    n = V.size('n', 0 if not V.conc else 1)
    b, f = V.bunch(n)
    m = Moments(V, f, n); m.core(b); heavy(V, m)
    vs, how = V.choice('case', [(l, h) for l in (['x'], ['px', 'x'], ['energy', 't', 'y']) for h in ('none', 'all', 'first')])
    c = {}
    for j, v in enumerate(vs):
        if how == 'all' or (how == 'first' and j == 0): c[v] = V.real('centre_' + v, -10, 10)
    c0 = dict(c)
    want = [[m.moment([a, d], c0) for d in vs] for a in vs]
    got = b.covariance_matrix(list(vs), c) if c else b.covariance_matrix(list(vs))
    V.eq('shape', tuple(got.shape), (len(vs), len(vs)))
    V.eq('centres-kept', c, c0)
    for i in range(len(vs)):
        for j in range(len(vs)):
            V.eq('second-moment', got[i, j], want[i][j] if i <= j else want[j][i], scale=sc(V, m, [vs[i], vs[j]], c0))
            V.eq('symmetric', got[i, j], got[j, i])

@contract('P10', 'covariance-derived', [BUN + 'covariance_matrix', BUN + 'moment'], budget=200, tmo=20, bound='every content of the bunch and every number of hits; lists of 2 variables')
def covd(V):
    n = V.size('n', 0 if not V.conc else 1)
    b, f = V.bunch(n)
    def get(v, i):
        if v == 'r_squared': return f.old('x', i) * f.old('x', i) + f.old('y', i) * f.old('y', i)
        return f.old(v, i)
    m = Moments(V, f, n, get); m.core(b); heavy(V, m)
    c = {'r_squared': V.real('c1', -10, 10)}
    c.update({'px': V.real('c2', -10, 10)} if V.choice('all', [0, 1]) else {})
    vs = ['r_squared', 'px']; c0 = dict(c)
    want = [[m.moment([a, d], c0) for d in vs] for a in vs]
    got = b.covariance_matrix(vs, c)
    for i in range(2):
        for j in range(2):
            V.eq('second-moment', got[i, j], want[i][j] if i <= j else want[j][i], scale=sc(V, m, [vs[i], vs[j]], c0))

@contract('P10', 'positive-diagonal', [BUN + 'covariance_matrix', BUN + 'moment'], budget=100, tmo=20)
def pos(V):
    n = V.size('n', 1)
    b, f = V.bunch(n)
    if V.conc:
        m = Moments(V, f, n); V.assume(m.total() > 1e-3)
    else:
        nn = lambda i: V.E.fact(f.weight_old(i).t >= 0)
        m = Moments(V, f, n, weight=lambda i: (nn(i), f.weight_old(i))[1])
        V.induct('weights-not-negative', n, lambda k: m.W.at(k) >= 0)
        V.assume(m.total() >= 1e-9)
    m.core(b)
    c = V.real('centre', -10, 10)
    fd = m.fold(['x', 'x']); fd.at(n, c, c)
    V.induct('sum-not-negative', n, lambda k: fd.at(k, c, c) >= 0) if not V.conc else None
    got = b.covariance_matrix(['x'], {'x': c})
    V.check('not-negative', got[0, 0] >= 0)

@contract('P10', 'stored', [BUN + 'set_covariance_matrix', BUN + 'moment', BUN + 'mean', BUN + 'covariance_matrix', BUN + 'covariances_set', BUN + 'means_set'], budget=200, tmo=20)
def stored(V):
    n = V.size('n', 1)
    b, f = V.bunch(n)
    m = Moments(V, f, n); m.core(b); heavy(V, m)
    # ct and energy are repeated: the first occurrence counts
    U = {(i, j): V.real('m_%d_%d' % (i, j), -9, 9) for i in range(10) for j in range(i, 10)}
    M = [[U[(min(i, j), max(i, j))] for j in range(10)] for i in range(10)]
    means = {v: V.real('mean_' + v, -9, 9) for v in set(ALL)}
    V.check('nothing-stored', b.covariances_set() == False and b.means_set() == False)
    given = V.choice('given', ['both', 'covariances'])
    if given == 'both': b.set_covariance_matrix(True, V.matrix(M), means)
    else:
        V.assume(n >= 1)
        if not V.conc: 
            B = V.Bunch(); V.patch(B, 'mean', lambda self, vs: {v: means[v] for v in vs})
            b.set_covariance_matrix(True, V.matrix(M))
        else:
            means = b.mean(ALL); b.set_covariance_matrix(True, V.matrix(M))
    V.check('stored', b.covariances_set() == True and b.means_set() == True)
    for (i, j) in ((0, 0), (0, 1), (1, 4), (7, 6), (3, 2)):
        V.eq('stored-moment', b.moment([ALL[i], ALL[j]]), M[i][j])
        V.eq('stored-moment-list', b.moment((ALL[i], ALL[j]) if V.conc else [ALL[i], ALL[j]]), M[i][j])
    if given == 'both':
        got = b.mean(['x', 'energy', 'py'])
        for v in ('x', 'energy', 'py'): V.eq('stored-mean', got[v], means[v])
    got = b.covariance_matrix(['x', 'py', 'energy'])
    for i, p in enumerate((0, 3, 7)):
        for j, q in enumerate((0, 3, 7)): V.eq('stored-covariance', got[i, j], M[p][q])
    b.set_covariance_matrix(False)
    V.check('cleared', b.covariances_set() == False and b.means_set() == False)
    if given == 'both':
        V.eq('from-the-hits-again', b.moment(['x', 'px'], {'x': 0., 'px': 0.}), m.moment(['x', 'px'], {'x': 0., 'px': 0.}), scale=sc(V, m, ['x', 'px'], {'x': 0., 'px': 0.}))

@contract('P10', 'stored-used', [BUN + '__cov_mat_picker', BUN + '__mean_picker', BUN + 'get_emittance', BUN + 'get_amplitude', BUN + 'set_covariance_matrix'], budget=100, tmo=20)
def stored_used(V):
    """the numbers that are calculated from covariances take the stored entries of the axes they are asked for"""
    n = V.size('n', 1)
    b, f = V.bunch(n)
    mass = b[0]['mass']
    V.assume(mass > (0 if not V.conc else 0.1))
    if V.conc:
        L = [[V.real('l%d_%d' % (i, j), 1, 3) if i == j else V.real('l%d_%d' % (i, j), -0.3, 0.3) if j < i else 0. for j in range(10)] for i in range(10)]
        M = [[sum([L[i][k] * L[j][k] for k in range(10)]) for j in range(10)] for i in range(10)]
    else:
        U = {(i, j): V.real('m_%d_%d' % (i, j)) for i in range(10) for j in range(i, 10)}
        M = [[U[(min(i, j), max(i, j))] for j in range(10)] for i in range(10)]
    means = {v: V.real('mean_' + v, -9, 9) for v in sorted(set(ALL))}
    V.Bunch().set_geometric_momentum(False)
    b.set_covariance_matrix(True, V.matrix(M), means)
    axes = V.choice('axes', [['x'], ['t'], ['ct'], ['y', 'x'], ['x', 'z']])
    at = [k for a in axes for k in (2 * 'x y z t ct'.split().index(a), 2 * 'x y z t ct'.split().index(a) + 1)]
    C = [[M[i][j] for j in at] for i in at]; D = V.det(C)
    V.assume(D > (0 if not V.conc else 1e-3))
    e = b.get_emittance(list(axes)); w = 1.
    for i in at: w = w * (e * mass)
    V.eq('emittance-of-the-stored-matrix', w, D, **({'tol': 1e-6} if V.conc else {}))
    if len(axes) == 1:
        h = b[V.integer('hit', 0, n - 1)] if V.conc else V.hit('h')
        v = [h.get(ALL[k]) - means[ALL[k]] for k in at]
        amp = V.Bunch().get_amplitude(b, h, list(axes))
        form = v[0] * v[0] * C[1][1] - 2 * v[0] * v[1] * C[0][1] + v[1] * v[1] * C[0][0]
        V.eq('amplitude-from-the-stored-means', amp * V.sqrt(D) * mass, form, **({'tol': 1e-6, 'scale': abs(form) + v[0] * v[0] * C[1][1] + v[1] * v[1] * C[0][0]} if V.conc else {}))

@contract('P10', 'recalculated', [BUN + 'set_covariance_matrix', BUN + '__cov_mat_picker', BUN + '__mean_picker', BUN + 'get_emittance'], mode='bounded', runs=40, maxn=8)
def recalc(V):
    """storing is a calculation of the present state; the user refreshes it by calling again"""
    n = V.size('n', 3)
    b, f = V.bunch(n, fields=('x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy'))
    m = Moments(V, f, n); heavy(V, m)
    V.assume(m.total() > 0.1)
    for i in range(n): V.assume(b[i]['local_weight'] >= 0)
    K = V.integer('k', 0, 10 ** 6)
    import random, math
    r = random.Random(K)
    b.set_covariance_matrix(True)
    one = b.covariance_matrix(ALL[:8])
    plain = V.Bunch()()
    for h in b: plain.append(h)
    s = 1 + max([abs(x) for x in plain.covariance_matrix(ALL[:8]).flat])
    for i in range(8):
        for j in range(8): V.eq('stored-values', one[i, j], plain.covariance_matrix([ALL[i], ALL[j]])[0, 1], scale=s)
    for h in b: h['x'] = h['x'] * 2. + r.random(); h['py'] = -h['py'] + h['x']
    V.eq('kept', b.moment(['x', 'py']), one[0, 3])
    b.set_covariance_matrix(True)
    s = 1 + max([abs(x) for x in plain.covariance_matrix(ALL[:8]).flat])
    for i in range(8):
        for j in range(8): V.eq('refreshed', b.moment([ALL[i], ALL[j]]), plain.moment([ALL[i], ALL[j]]), scale=s)
        V.eq('refreshed-mean', b.mean([ALL[i]])[ALL[i]], plain.mean([ALL[i]])[ALL[i]], scale=s)

CORE = 'xboa/core/cpplib/Bunchcore.cc:Bunchcore::'
@contract('P10', 'core-covariance', [CORE + 'covariance_matrix', CORE + 'bunch_weight', 'xboa/core/pylib/PyBunchcore.cc:covariance_matrix'], budget=300, tmo=20, bound='every content of the core and every number of hits; lists of up to three variables')
def core_cov(V):
    C = Core(V)
    vs = V.choice('axes', [[], ['x'], ['px', 'x'], ['energy', 't', 'local_weight'], ['y', 'y']])
    c = {}
    for v in vs[:V.choice('centres', [0, 1, 3])]: c[v] = V.real('centre_' + v, -10, 10)
    term = lambda a, b: (lambda i: (C.value(a, i) - c.get(a, 0.)) * (C.value(b, i) - c.get(b, 0.)))
    big = lambda a, b: (lambda i: (abs(C.value(a, i)) + abs(c.get(a, 0.))) * (abs(C.value(b, i)) + abs(c.get(b, 0.))))
    pairs = sorted(set((min(a, b), max(a, b)) for a in vs for b in vs))
    want = {p: C.average('cov_%s_%s' % p, term(*p)) for p in pairs}
    got = C.bc.covariance_matrix(V.list(list(vs)) if not V.conc else list(vs), c)
    V.eq('rows', V.len(got), len(vs))
    for i, a in enumerate(vs):
        V.eq('columns', V.len(got[i]), len(vs))
        for j, b in enumerate(vs):
            p = (min(a, b), max(a, b)); V.eq('second-moment', got[i][j], want[p], scale=C.size(big(*p)))
    C.unchanged()
