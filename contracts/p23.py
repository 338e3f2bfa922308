"""P23 Newton-Raphson"""
from dv.api import contract
COM = 'xboa/common/_common.py:'

def affine(V, d):
    """y = A x + b with A invertible; returns f, the determinant-free residual"""
    A = [[V.real('a%d%d' % (i, j), -3, 3) if V.conc else V.real('a%d%d' % (i, j)) for j in range(d)] for i in range(d)]
    b = [V.real('b%d' % i, -5, 5) if V.conc else V.real('b%d' % i) for i in range(d)]
    if V.conc:
        import numpy
        V.assume(abs(numpy.linalg.det(numpy.array(A))) > 0.3)
    else:
        det = A[0][0] if d == 1 else A[0][0] * A[1][1] - A[0][1] * A[1][0] if d == 2 else sum([A[0][j] * (A[1][(j + 1) % 3] * A[2][(j + 2) % 3] - A[1][(j + 2) % 3] * A[2][(j + 1) % 3]) for j in range(3)])
        V.assume(V.or_(det > 0, det < 0))
    def f(x):
        V.check('argument-size', V.len(x) == d)
        return V.list([sum([A[i][j] * x[j] for j in range(d)]) + b[i] for i in range(d)])
    return f, A, b

def inputs(V, d):
    x0 = [V.real('x%d' % i, -5, 5) if V.conc else V.real('x%d' % i) for i in range(d)]
    dx = [V.real('dx%d' % i, 0.01, 2.) if V.conc else V.real('dx%d' % i, nz=True) for i in range(d)]
    if not V.conc:
        for q in dx: V.assume(V.or_(q > 1e-9, q < -1e-9))
    tol = [V.pos('tol%d' % i) for i in range(d)]
    return x0, dx, tol

def many(f, log):
    def g(xs):
        log.append([list(x) for x in xs])
        return [f(x) for x in xs]
    return g

@contract('P23', 'affine-one-step', [COM + 'nd_newton_raphson1', COM + 'nd_newton_raphson2', COM + '__y_function_wrapper'], budget=150, tmo=600)
def one(V):
    c = V.mod('xboa.common')
    d, it, how = V.choice('case', [(d, it, how) for d in (1, 2, 3) for it in ((1, 2) if not V.conc else (1, 2, 3, 10)) for how in ('one', 'many') if V.conc or (d, it, how) in ((1, 1, 'one'), (1, 2, 'one'), (1, 2, 'many'), (2, 1, 'one'), (2, 1, 'many'), (3, 1, 'many'))])
    f, A, b = affine(V, d)
    x0, dx, tol = inputs(V, d)
    start = V.list(x0)
    calls = []
    if how == 'one': r = c.nd_newton_raphson1(f, V.list(tol), start, V.list(dx), it, verbose=V.choice('verbose', [False, True]))
    else: r = c.nd_newton_raphson2(lambda xs: (calls.append(V.len(xs)), V.list([f(x) for x in xs]))[1], V.list(tol), start, V.list(dx), it, verbose=False)
    V.eq('size', V.len(r), d)
    sc = 1. + sum([abs(q) for q in b]) + 10. * sum([sum([abs(q) for q in row]) for row in A]) / (min(dx) if V.conc else 1) if V.conc else None
    for i in range(d): V.eq('root', sum([A[i][j] * r[j] for j in range(d)]) + b[i], 0., scale=sc)
    for i in range(d): V.eq('start-kept', start[i], x0[i])
    if how == 'many':
        V.check('iterations-bounded', sum([1 for n in calls if not (n == 1)]) <= it)
        V.check('simplex-size', all([n == 1 or n == d + 1 for n in calls]))

@contract('P23', 'arbitrary-function', [COM + 'nd_newton_raphson2', COM + 'nd_newton_raphson1'], budget=120)
def arb(V):
    """any function: number of evaluations, points evaluated, start point, agreement of the two interfaces"""
    c = V.mod('xboa.common')
    d = V.choice('d', [1, 2]); it = V.choice('iterations', [0, 1, 2] if not V.conc else [0, 1, 2, 5])
    if not V.conc: V.assume(d * it <= 2)
    fs = [V.ufun('y%d' % i, d) for i in range(d)]
    x0, dx, tol = inputs(V, d)
    start = V.list(x0); log = []; log1 = []
    def g(xs):
        log.append([[x[i] for i in range(d)] for x in xs])
        return V.list([V.list([fi(*[x[i] for i in range(d)]) for fi in fs]) for x in xs])
    def g1(x):
        log1.append([x[i] for i in range(d)])
        return V.list([fi(*[x[i] for i in range(d)]) for fi in fs])
    r = c.nd_newton_raphson2(g, V.list(tol), start, V.list(dx), it, verbose=False)
    for i in range(d): V.eq('start-kept', start[i], x0[i])
    its = [l for l in log if len(l) == d + 1]
    V.check('iterations-bounded', len(its) <= it)
    if it == 0:
        for i in range(d): V.eq('no-iteration', r[i], x0[i])
    else:
        V.check('evaluated', len(its) >= 1)
        for i in range(d):
            V.eq('first-point-is-start', its[0][0][i], x0[i])
            for j in range(d): V.eq('step', its[0][1 + j][i], x0[i] + (dx[j] if i == j else 0.))
        if V.choice('compare', [0, 1]):
            r1 = c.nd_newton_raphson1(g1, V.list(tol), V.list(x0), V.list(dx), it, verbose=False)
            for i in range(d): V.eq('interfaces-agree', r1[i], r[i])

@contract('P23', 'periodic-limits', [COM + 'nd_newton_raphson2'], budget=120)
def limits(V):
    c = V.mod('xboa.common')
    d = V.choice('d', [1, 2]); it = V.choice('iterations', [1] if not V.conc else [1, 2, 4])
    fs = [V.ufun('y%d' % i, d) for i in range(d)]
    x0, dx, tol = inputs(V, d)
    lo = [V.real('lo%d' % i, -4, 4) if V.conc else V.real('lo%d' % i) for i in range(d)]
    span = [V.real('span%d' % i, 0.2, 5) if V.conc else V.pos('span%d' % i) for i in range(d)]
    up = [lo[i] + span[i] for i in range(d)]
    log = []
    def g(xs):
        log.append([[x[i] for i in range(d)] for x in xs])
        return V.list([V.list([fi(*[x[i] for i in range(d)]) for fi in fs]) for x in xs])
    start = V.list(x0)
    c.nd_newton_raphson2(g, V.list(tol), start, V.list(dx), it, V.list(up), V.list(lo), False)
    its = [l for l in log if len(l) == d + 1]
    V.check('evaluated', 1 <= len(its) <= it)
    e = 1e-9 if V.conc else 0
    for l in its:
        for i in range(d):
            V.check('inside', V.and_(l[0][i] >= lo[i] - e, l[0][i] <= up[i] + e) if not V.conc else lo[i] - e * (1 + abs(lo[i])) <= l[0][i] <= up[i] + e * (1 + abs(up[i])))
    for i in range(d):
        k = (its[0][0][i] - x0[i]) / span[i]
        if V.conc: V.check('whole-periods', abs(k - round(k)) < 1e-6)
        else: V.eq('folded-by-whole-periods', its[0][0][i], x0[i] - span[i] * V.toreal(V.floor((x0[i] - lo[i]) / span[i])))
        V.eq('start-kept', start[i], x0[i])
