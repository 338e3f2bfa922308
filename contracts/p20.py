"""P20 histograms"""
from dv.api import contract
COM = 'xboa/common/_common.py:'
BUN = 'xboa/bunch/_bunch.py:Bunch.'

def edges(V, name, m):
    e = [V.real('%s0' % name)]
    for i in range(1, m): e.append(e[-1] + V.pos('%s%d' % (name, i)))
    return e

def inside(V, x, e, p): return V.and_(e[p] <= x, x < e[p + 1])

@contract('P20', 'histogram-1d', [COM + 'histogram'], budget=200)
def h1(V):
    c = V.mod('xboa.common')
    m = V.choice('edges', [2, 3, 4]); e = edges(V, 'e', m)
    n = V.size('n', 0); x = V.seq('x', n); xf = V.fn(x)
    wt = V.choice('weights', [0, 1])
    w = V.seq('w', n) if wt else None
    wf = V.fn(w) if wt else (lambda i: 1.)
    fs = [V.fold('bin%d' % p, 0., lambda v, i, p=p: v + V.ite(inside(V, xf(i), e, p), wf(i), 0.)) for p in range(m - 1)]
    tot = V.fold('range', 0., lambda v, i: v + V.ite(V.and_(e[0] <= xf(i), xf(i) < e[-1]), wf(i), 0.))
    out = c.histogram(x, V.list(e), weights=w)
    V.eq('shape', tuple(out[0].shape), (m - 1, 1))
    for p in range(m - 1): V.eq('bin-content', out[0][p, 0], fs[p].at(n))
    V.induct('sum-is-weight-in-range', n, lambda k: sum([f.at(k) for f in fs]) == tot.at(k))
    V.eq('total', sum([out[0][p, 0] for p in range(m - 1)]), tot.at(n))
    V.eq('edges-returned', [v for v in out[1]], e); V.eq('no-y-edges', len(out[2]), 0)

@contract('P20', 'histogram-2d', [COM + 'histogram'], budget=200, paths=6000)
def h2(V):
    c = V.mod('xboa.common')
    mx, my = V.choice('edges', [(2, 2), (3, 2), (2, 3), (3, 3)])
    ex, ey = edges(V, 'ex', mx), edges(V, 'ey', my)
    n = V.size('n', 0); x = V.seq('x', n); y = V.seq('y', n); xf, yf = V.fn(x), V.fn(y)
    w = V.seq('w', n); wf = V.fn(w)
    fs = {(p, q): V.fold('bin%d%d' % (p, q), 0., lambda v, i, p=p, q=q: v + V.ite(V.and_(inside(V, xf(i), ex, p), inside(V, yf(i), ey, q)), wf(i), 0.)) for p in range(mx - 1) for q in range(my - 1)}
    out = c.histogram(x, V.list(ex), y, V.list(ey), weights=w)
    V.eq('shape', tuple(out[0].shape), (mx - 1, my - 1))
    for (p, q), f in fs.items(): V.eq('bin-content', out[0][p, q], f.at(n))
    V.eq('x-edges', [v for v in out[1]], ex); V.eq('y-edges', [v for v in out[2]], ey)

@contract('P20', 'bin-edges', [COM + 'get_bin_edges', COM + 'min_max'])
def be(V):
    c = V.mod('xboa.common')
    n = V.size('n', 1); x = V.seq('x', n); xf = V.fn(x)
    nb = V.integer('bins', 1, 40 if V.conc else None)
    lim = V.choice('limits', [0, 1, 2, 3])
    a, b = V.extreme('min', n, xf), V.extreme('max', n, xf)
    V.assume(b - a >= 1e-9)
    kw = {}
    if lim & 1: a = kw['xmin'] = V.real('xmin')
    if lim & 2: b = kw['xmax'] = V.real('xmax')
    V.assume(a < b)
    V.listhint('edge', lambda i: a + (b - a) / nb * i)
    out = c.get_bin_edges(x, nb, **kw)
    V.seq_eq('edges', out, nb + 1, lambda i: a + (b - a) * i / nb)
    V.eq('first', out[0], a); V.eq('last', out[nb], b)
    V.forall('increasing', nb, lambda i: V.check('increasing', out[i] < out[i + 1]))

@contract('P20', 'bin-edges-constant-data', [COM + 'get_bin_edges', COM + 'min_max'])
def bec(V):
    c = V.mod('xboa.common')
    v = V.real('v'); k = V.choice('n', [1, 2, 3])
    nb = V.integer('bins', 1, 40 if V.conc else None)
    V.listhint('edge', lambda i: v - 1. + V.toreal(2.) / nb * i)
    out = c.get_bin_edges(V.list([v] * k), nb)
    V.seq_eq('edges', out, nb + 1, lambda i: v - 1. + 2. * V.toreal(i) / nb)

@contract('P20', 'n-bins', [COM + 'n_bins'])
def nb(V):
    c = V.mod('xboa.common')
    n = V.integer('n', 0, 100000); d = V.choice('dims', [1, 2, 3])
    given = [V.choice('g%d' % i, [None, 7, 1]) for i in range(3)]
    out = c.n_bins(n, given[0], given[1], given[2], n_dimensions=d)
    V.eq('three', len(out), 3)
    for i in range(3):
        if given[i] is not None: V.eq('override', out[i], given[i])
        elif i >= d: V.eq('unused-dimension', out[i], 0)
        else:
            V.check('at-least-one', out[i] >= 1)
            V.check('not-more-than-points', out[i] <= n / 10. + 1)

VARS = ['x', 'px', 'energy', 'pt', 'r']
@contract('P20', 'bunch-var-bins', [BUN + 'histogram_var_bins', BUN + 'list_get_hit_variable', COM + 'histogram'])
def bvb(V):
    Bunch = V.Bunch()
    n = V.size('n', 0)
    b, f = V.bunch(n)
    u, k = V.choice('unit', [('mm', 1.), ('m', 1000.), ('cm', 10.)])
    e = edges(V, 'e', 3)
    two = V.choice('two', [0, 1])
    fx = lambda i: f.old('x', i) / k
    fy = lambda i: f.old('py', i) / 1000.
    ey = edges(V, 'ey', 3) if two else None
    cells = [(p, q) for p in range(2) for q in range(2 if two else 1)]
    fs = {}
    for (p, q) in cells:
        fs[p, q] = V.fold('bin%d%d' % (p, q), 0., lambda v, i, p=p, q=q: v + V.ite(V.and_(inside(V, fx(i), e, p), inside(V, fy(i), ey, q)) if two else inside(V, fx(i), e, p), f.weight_old(i), 0.))
    V.listhint('xv', fx); V.listhint('yv', fy); V.listhint('wv', f.weight_old)

    out = b.histogram_var_bins('x', V.list(e), u, 'py', V.list(ey), 'GeV/c') if two else b.histogram_var_bins('x', V.list(e), u)
    V.eq('shape', tuple(out[0].shape), (2, 2 if two else 1))
    for (p, q) in cells: V.eq('bin-content', out[0][p, q], fs[p, q].at(n))

@contract('P20', 'bunch-histogram', budget=200, fns=[BUN + 'histogram', BUN + 'histogram_var_bins', COM + 'n_bins', COM + 'get_bin_edges'], )
def bh(V): bunch_histogram(V, 0)
@contract('P20', 'bunch-histogram-automatic', [BUN + 'histogram', COM + 'n_bins'], mode='bounded', maxn=60, runs=60)
def bha(V): bunch_histogram(V, 1)

def bunch_histogram(V, auto):
    n = V.size('n', 1)
    b, f = V.bunch(n)
    two = V.choice('two', [0, 1])
    u, k = V.choice('unit', [('mm', 1.), ('m', 1000.)])
    fx, fy = (lambda i: f.old('x', i) / k), (lambda i: f.old('py', i) / 1000.)
    V.listhint('xv', fx); V.listhint('yv', fy); V.listhint('wv', f.weight_old)
    ax, bx = V.extreme('min', n, fx), V.extreme('max', n, fx); V.assume(bx - ax > 1e-9)
    ay, by = V.extreme('min', n, fy), V.extreme('max', n, fy); V.assume(by - ay > 1e-9)
    if auto:
        ix = int(n / 10.) + 1 if not two else int(n ** 0.7 / 10.) + 1; iy = ix
    else: ix, iy = 2, 2
    if not V.conc:
        for nm, a_, b_, m in (('ex', ax, bx, ix), ('ey', ay, by, iy)): V.listhint(nm, lambda i, a_=a_, b_=b_, m=m: a_ + (b_ - a_) / m * i)
    ex = [ax + (bx - ax) / ix * i for i in range(ix + 1)]
    ey = [ay + (by - ay) / iy * i for i in range(iy + 1)]
    kw = {} if auto else dict(nx_bins=ix)
    if two:
        if not auto: kw['ny_bins'] = iy
        args = ('x', u, 'py', 'GeV/c')
    else: args = ('x', u)
    cells = [(p, q) for p in range(ix) for q in range(iy if two else 1)]
    fs = {}
    for (p, q) in cells:
        fs[p, q] = V.fold('bin%d%d' % (p, q), 0., lambda v, i, p=p, q=q: v + V.ite(V.and_(inside(V, fx(i), ex, p), inside(V, fy(i), ey, q)) if two else inside(V, fx(i), ex, p), f.weight_old(i), 0.))
    out = b.histogram(*args, **kw)
    V.eq('shape', tuple(out[0].shape), (ix, iy if two else 1))
    V.eq('x-edges', [v for v in out[1]], ex)
    if two: V.eq('y-edges', [v for v in out[2]], ey)
    if not V.conc:
        for (p, q) in cells: V.eq('bin-content', out[0][p, q], fs[p, q].at(n))
    else:   # edges computed in floating point: use the returned ones
        for (p, q) in cells:
            want = 0.
            for i in range(n):
                if out[1][p] <= b[i]['x'] / k < out[1][p + 1] and (not two or out[2][q] <= b[i]['py'] / 1000. < out[2][q + 1]): want += b[i]['weight']
            V.eq('bin-content', out[0][p, q], want)

@contract('P20', 'bunch-histogram-limits', [BUN + 'histogram'])
def bhl(V):
    """explicit limits are in the same units as the binned values"""
    n = V.size('n', 1)
    b, f = V.bunch(n)
    u, k = V.choice('unit', [('mm', 1.), ('', 1.)])
    lo = V.real('xmin'); hi = lo + V.pos('width')
    fx = lambda i: f.old('x', i) / k
    V.listhint('xv', fx); V.listhint('wv', f.weight_old)
    V.listhint('ex', lambda i: lo + (hi - lo) / 2 * i)
    out = b.histogram('x', u, nx_bins=2, xmin=lo, xmax=hi)
    V.eq('edges', [v for v in out[1]], [lo, lo + (hi - lo) / 2, hi])

@contract('P20', 'bunch-histogram-limits-in-other-units', [BUN + 'histogram'], mode='bounded', runs=20)
def bhlu(V):
    n = V.size('n', 1)
    b, f = V.bunch(n)
    u = V.choice('unit', ['m', 'cm', 'km'])
    lo = V.real('xmin', -1, 1); hi = lo + V.real('width', 0.5, 2)
    out = b.histogram('x', u, nx_bins=2, xmin=lo, xmax=hi)
    V.eq('edges', [v for v in out[1]], [lo, lo + (hi - lo) / 2, hi])
