"""P14 coordinate transformations"""
from dv.api import contract
from contracts.bunchlib import DBL
BUN = 'xboa/bunch/_bunch.py:Bunch.'
HIT = 'xboa/hit/_hit.py:Hit.'
FIELDS = ('x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'mass')
BOUNDS = {'energy': (150., 400.), 'mass': (100., 110.), 'px': (-20., 20.), 'py': (-20., 20.), 'pz': (-60., 60.), 'x': (-50., 50.), 'y': (-50., 50.), 'z': (-50., 50.), 't': (-50., 50.)}

def bunch(V):
    n = V.size('n')
    b, f = V.bunch(n, fields=FIELDS, bounds=BOUNDS) if V.conc else V.bunch(n)
    return n, b, f

def verdict(V, f, n, changed, new):
    """changed variables have new(v, i); all others, and all weights, are kept"""
    def one(i):
        for v in changed: V.eq('new-value', f.rd(v, i), new(v, i))
        for v in (V.DOUBLES + V.INTS + ['local_weight'] if V.conc else list(f.fields)):
            if v not in changed: V.eq('others-kept', f.rd(v, i), f.old(v, i))
    V.forall('every-hit', n, one)

def hints(V, f, new):
    for v in FIELDS: V.prefixhint('new_' + v, lambda i, v=v: new(v, i), (f.name if not V.conc else '', v))

def shell(V, mode, new, f, i):
    """the value that the mass-shell option imposes"""
    g = lambda v: new(v, i)
    if mode == 'energy': return V.sqrt(g('mass') * g('mass') + g('px') * g('px') + g('py') * g('py') + g('pz') * g('pz'))

@contract('P14', 'translate', [BUN + 'translate', HIT + 'translate', HIT + 'mass_shell_condition'], budget=100, tmo=20)
def translate(V):
    n, b, f = bunch(V)
    names, mode = V.choice('case', [(l, m) for l in ((), ('x',), ('py', 't'), ('px', 'pz', 'x')) for m in ('', 'energy')])
    d = {v: V.real('offset_' + v, -10, 10) for v in names}
    moved = lambda v, i: f.old(v, i) + d[v] if v in d else f.old(v, i)
    def new(v, i): return shell(V, mode, moved, f, i) if v == 'energy' and mode == 'energy' else moved(v, i)
    ch = list(names) + (['energy'] if mode else [])
    hints(V, f, new)
    d0 = dict(d)
    b.translate(d, mode) if mode or V.choice('explicit', [0, 1]) else b.translate(d)
    verdict(V, f, n, ch, new)
    V.eq('offsets-kept', d, d0)

@contract('P14', 'affine', [BUN + 'abelian_transformation', HIT + 'abelian_transformation', HIT + 'get_vector', HIT + 'mass_shell_condition'], budget=150, tmo=20)
def affine(V):
    n, b, f = bunch(V)
    names, part, mode = V.choice('case', [(l, p, m) for l in (('x',), ('px', 'x'), ('y', 'py', 't')) for p in ('none', 'first', 'all') for m in ('', 'energy') if not (m and p == 'first')])
    R = [[V.real('r%d%d' % (i, j), -2, 2) for j in range(len(names))] for i in range(len(names))]
    some = lambda tag: {v: V.real(tag + '_' + v, -10, 10) for k, v in enumerate(names) if part == 'all' or (part == 'first' and k == 0)}
    T, O = some('translation'), some('origin')
    def moved(v, i):
        if v not in names: return f.old(v, i)
        a = names.index(v); s = 0.
        for k, w in enumerate(names): s = s + R[a][k] * (f.old(w, i) - O.get(w, 0.))
        return s + T.get(v, 0.) + O.get(v, 0.)
    def new(v, i): return shell(V, mode, moved, f, i) if v == 'energy' and mode == 'energy' else moved(v, i)
    ch = list(names) + (['energy'] if mode else [])
    hints(V, f, new)
    M = V.matrix(R); T0, O0 = dict(T), dict(O)
    b.abelian_transformation(list(names), M, T, O, mode) if mode or part != 'none' else b.abelian_transformation(list(names), M)
    verdict(V, f, n, ch, new)
    V.eq('translation-kept', T, T0); V.eq('origin-kept', O, O0)
    for i in range(len(names)):
        for j in range(len(names)): V.eq('matrix-kept', M[i, j], R[i][j])

@contract('P14', 'vector', [HIT + 'get_vector'], budget=40)
def vector(V):
    """the coordinates relative to an origin; zero where none is given"""
    h = V.hit('h'); o = V.snapshot(h)
    names, part = V.choice('case', [(l, p) for l in (['x'], ['px', 't', 'y']) for p in ('none', 'first', 'all')])
    O = {v: V.real('origin_' + v, -10, 10) for k, v in enumerate(names) if part == 'all' or (part == 'first' and k == 0)}
    O0 = dict(O)
    v = h.get_vector(list(names), O) if part != 'none' else h.get_vector(list(names))
    V.eq('shape', tuple(v.shape), (1, len(names)))
    for k, n in enumerate(names): V.eq('component', v[0, k], o[n] - O0.get(n, 0.))
    now = V.snapshot(h)
    for k in o: V.eq('hit-kept', now[k], o[k])
    V.eq('origin-kept', O, O0)

@contract('P14', 'affine-mass-shell', [HIT + 'abelian_transformation', HIT + 'translate', HIT + 'mass_shell_condition'], budget=100, tmo=20)
def hit_shell(V):
    """one hit, mass shell through a momentum component"""
    h = V.hit('h') if not V.conc else V.hit('h', only=('x', 'y'), px=V.real('px', -20, 20), py=V.real('py', -20, 20), pz=V.real('pz', -60, 60), mass=105., energy=V.real('energy', 200, 300))
    o = V.snapshot(h)
    how, comp = V.choice('case', [(a, c) for a in ('translate', 'affine') for c in ('px', 'py', 'pz')])
    off = V.real('offset', -5, 5)
    q = V.real('q', -2, 2)
    moved = {'x': off + (o['x'] if how == 'translate' else o['x'] + q * o['y'])}
    if how == 'affine': moved['y'] = o['y']
    others = [c for c in ('px', 'py', 'pz') if c != comp]
    left = o['energy'] * o['energy'] - o['mass'] * o['mass'] - sum([o[c] * o[c] for c in others])
    V.assume(left > 1e-3)
    if how == 'translate': h.translate({'x': off}, comp)
    else: h.abelian_transformation(['x', 'y'], V.matrix([[1., q], [0., 1.]]), {'x': off}, {}, comp)
    r = V.snapshot(h)
    V.eq('on-shell', r[comp] * r[comp], left)
    for v in r:
        if v in moved: V.eq('moved', r[v], moved[v])
        elif v != comp: V.eq('kept', r[v], o[v])

@contract('P14', 'period', [BUN + 'period_transformation'], budget=100, tmo=20)
def period(V):
    n, b, f = bunch(V)
    v = V.choice('variable', ['t', 'x', None])
    w = v or 't'
    off = V.real('offset', -20, 20); fr = V.pos('frequency', 5) if not V.conc else V.real('frequency', 0.01, 5)
    if V.conc:
        for i in range(n):
            q = (f.old(w, i) - off) * fr + 0.5; V.assume(abs(q - round(q)) > 1e-6)
    new = lambda i: (f.old(w, i) - off) - V.toreal(V.floor((f.old(w, i) - off) * fr + 0.5)) / fr
    hints(V, f, lambda u, i: new(i) if u == w else f.old(u, i))
    b.period_transformation(off, fr, v) if v else b.period_transformation(off, fr)
    def one(i):
        now = f.rd(w, i)
        V.eq('value', now, new(i))
        q = V.floor((f.old(w, i) - off) * fr + 0.5)          # a whole number
        V.eq('whole-number-of-periods', (f.old(w, i) - off - now) * fr, V.toreal(q), tol=1e-7)
        V.check('within-one-period', V.and_(now * fr >= (-0.5 - (1e-7 if V.conc else 0)), now * fr <= 0.5 + (1e-7 if V.conc else 0)))
        if not V.conc: V.check('half-open', now * fr < 0.5)
        for u in (V.DOUBLES + V.INTS + ['local_weight'] if V.conc else list(f.fields)):
            if u != w: V.eq('others-kept', f.rd(u, i), f.old(u, i))
    V.forall('every-hit', n, one)

@contract('P14', 'transform-to', [BUN + 'transform_to'], budget=200, tmo=60, bound='one and two variables')
def to(V):
    """the matrix handed to the affine transformation maps the bunch covariance to a multiple of the target"""
    if V.conc: return toconc(V)
    d = V.choice('dimensions', [1, 2])
    def eig(tag):
        w = [V.real('%s_w%d' % (tag, i), 0, lo_open=True) for i in range(d)]
        if d == 1: U = [[V.choice(tag + '_sign', [1., -1.])]]
        else:
            c, s = V.real(tag + '_c'), V.real(tag + '_s'); V.assume(c * c + s * s == 1)
            q = V.choice(tag + '_sign', [1., -1.]); U = [[c, -s * q], [s, c * q]]
        return w, U, [[sum([U[i][k] * w[k] * U[j][k] for k in range(d)]) for j in range(d)] for i in range(d)]
    w1, U1, C = eig('bunch'); w2, U2, T = eig('target')
    names = ['x', 'px'][:d]
    b = V.Bunch()()
    got = []; mc, mt = V.matrix(C), V.matrix(T)
    ori = {'x': V.real('ox')}; tra = {'px': V.real('tp')}
    B = V.Bunch()
    def cov(self, l, o={}):
        V.check('covariance-of-the-named-variables', list(l) == names and o == ori); return mc
    V.patch(B, 'covariance_matrix', cov)
    V.patch(B, 'abelian_transformation', lambda self, l, m, t={}, o={}, s='': got.append((list(l), m, t, o, s)))
    def eigh(m):
        if m is mc: return V.array(w1), V.matrix(U1)
        V.check('eigenvectors-of-the-target', m is mt); return V.array(w2), V.matrix(U2)
    V.E.eigh_hook = eigh
    V.trust('numpy.linalg.eigh: A = V diag(w) V^T with V orthogonal; covariance_matrix is the covariance (P10) and abelian_transformation applies the matrix (contract affine)')
    b.transform_to(list(names), mt, tra, ori, 'energy')
    V.eq('transformations', len(got), 1)
    l, m, t, o, s = got[0]
    V.check('arguments-passed', l == names and t == tra and o == ori and s == 'energy')
    R = [[sum([m[i, k] * C[k][q] * m[j, q] for k in range(d) for q in range(d)]) for j in range(d)] for i in range(d)]
    for i in range(d):
        for j in range(d): V.eq('covariance-is-a-multiple', R[i][j] * T[0][0], R[0][0] * T[i][j])
    if d == 1: V.check('positive-multiple', R[0][0] > 0)

def toconc(V):
    import numpy
    n = V.size('n', 4)
    names = V.choice('names', [['x'], ['x', 'px'], ['y', 'py'], ['x', 'y', 'px'], ['x', 'px', 'y', 'py']])
    b, f = V.bunch(n, fields=FIELDS, bounds=BOUNDS)
    for i in range(n): V.assume(f.weight_old(i) >= 0)
    V.assume(sum([f.weight_old(i) for i in range(n)]) > 0.1)
    C = b.covariance_matrix(names)
    V.assume(min(numpy.linalg.eigvalsh(C)) > 1e-3 * max(numpy.linalg.eigvalsh(C)))
    L = [[V.real('l%d%d' % (i, j), 0.3, 3) if i == j else (V.real('l%d%d' % (i, j), -1, 1) if j < i else 0.) for j in range(4)] for i in range(4)]
    T = numpy.matrix([[sum([L[i][k] * L[j][k] for k in range(4)]) for j in range(len(names))] for i in range(len(names))])
    mode = V.choice('mode', ['', 'energy'])
    b.transform_to(names, T, {}, {}, mode)
    R = b.covariance_matrix(names)
    k = R[0, 0] / T[0, 0]
    V.check('positive-multiple', k > 0)
    s = max(abs(R).max(), 1e-12) * 10
    for i in range(len(names)):
        for j in range(len(names)): V.eq('covariance', R[i, j], k * T[i, j], scale=s * 100)
    for i in range(n):
        for v in V.DOUBLES + V.INTS + ['local_weight']:
            if v not in names and not (v == 'energy' and mode): V.eq('others-kept', f.rd(v, i), f.old(v, i))
