"""P16 ellipse builders"""
from dv.api import contract
BUN = 'xboa/bunch/_bunch.py:Bunch.'
C = 299.792458

def det4(m):
    def d3(a): return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))
    s = 0.
    for j in range(4):
        minor = [[m[i][k] for k in range(4) if k != j] for i in range(1, 4)]
        s = s + ((-1.) ** j) * m[0][j] * d3(minor)
    return s

@contract('P16', 'ellipse-2d', [BUN + 'build_ellipse_2d'])
def e2d(V):
    B = V.Bunch()
    beta, alpha, eps = V.pos('beta'), V.real('alpha'), V.pos('emittance')
    p, mass = V.pos('p'), V.pos('mass')
    geo = V.choice('geometric', [True, False])
    m = B.build_ellipse_2d(beta, alpha, eps, p, mass, geo)
    a, b, c, d = m[0, 0], m[0, 1], m[1, 0], m[1, 1]
    V.eq('shape', tuple(m.shape), (2, 2))
    V.eq('symmetric', b, c)
    V.check('positive-definite', V.and_(a > 0, d > 0))
    if geo:
        V.eq('determinant', a * d - b * c, eps * eps, scale=a * d)
        V.eq('beta', a, beta * eps); V.eq('alpha', b, -alpha * eps)
    else:
        V.eq('determinant', a * d - b * c, (eps * mass) * (eps * mass), scale=a * d)
        V.eq('beta', a * p, beta * eps * mass); V.eq('alpha', b, -alpha * eps * mass)

@contract('P16', 'ellipse-2d-refused', [BUN + 'build_ellipse_2d'])
def e2d_refused(V):
    B = V.Bunch()
    beta, alpha, eps = V.real('beta'), V.real('alpha'), V.real('emittance')
    V.assume(V.or_(beta <= 0, eps <= 0))
    which = V.choice('which', [0, 1])
    if which == 0: V.assume(beta <= 0)
    else: V.assume(V.and_(eps <= 0, beta > 0))
    V.raises('refused', Exception, B.build_ellipse_2d, beta, alpha, eps, V.pos('p'), V.pos('mass'), V.choice('geometric', [True, False]))

@contract('P16', 'penn', [BUN + 'build_penn_ellipse'])
def penn(V):
    B = V.Bunch()
    beta, alpha, eps = V.pos('beta'), V.real('alpha'), V.pos('emittance')
    p, mass, L, bz = V.pos('p'), V.pos('mass'), V.real('L'), V.real('bz', lo=-10, hi=10)
    q = V.choice('q', [1., -1.])
    m = B.build_penn_ellipse(eps, mass, beta, alpha, p, L, bz, q)
    V.eq('shape', tuple(m.shape), (4, 4))
    M = [[m[i, j] for j in range(4)] for i in range(4)]
    for i in range(4):
        for j in range(i): V.eq('symmetric', M[i][j], M[j][i])
    for (i, j) in ((0, 0), (0, 1), (1, 1)): V.eq('equal-blocks', M[i][j], M[i + 2][j + 2])
    V.eq('beta', M[0][0] * p, eps * mass * beta)
    V.eq('alpha', M[0][1], -eps * mass * alpha)
    # canonical angular momentum term: <x py> - <y px> = -2 eps m q (beta kappa - L), kappa = c bz / 2 p
    V.eq('angular-momentum', (M[0][3] - M[1][2]) * p, -2. * eps * mass * q * (beta * C * bz / 2. - L * p), scale=eps * mass * (V.absv(beta * C * bz) + V.absv(L * p)))
    V.eq('antisymmetric-coupling', M[0][3], -M[1][2])
    V.eq('no-xy', M[0][2], 0.); V.eq('no-pxpy', M[1][3], 0.)
    e4 = (eps * mass) * (eps * mass) * (eps * mass) * (eps * mass)
    V.eq('four-dimensional-emittance', det4(M), e4, scale=(M[0][0] * M[1][1]) * (M[0][0] * M[1][1]) + e4)
    V.check('minor-1', M[0][0] > 0)
    V.check('minor-2', M[0][0] * M[1][1] - M[0][1] * M[0][1] > (-1e-9 * M[0][0] * M[1][1] if V.conc else 0))

@contract('P16', 'penn-refused', [BUN + 'build_penn_ellipse'])
def penn_refused(V):
    B = V.Bunch()
    beta, eps, mass = V.real('beta'), V.real('emittance'), V.real('mass')
    which = V.choice('which', [0, 1, 2])
    V.assume([beta, eps, mass][which] <= 0)
    V.raises('refused', ValueError, B.build_penn_ellipse, eps, mass, beta, V.real('alpha'), V.pos('p'), V.real('L'), V.real('bz'), 1.)
