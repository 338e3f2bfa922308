"""P32 decoupled transfer matrix"""
from dv.api import contract
D = 'xboa/algorithms/decoupled_transfer_matrix.py:DecoupledTransferMatrix.'
MOD = 'xboa.algorithms.decoupled_transfer_matrix'

@contract('P32', 'refused', [D + '__init__'], budget=60)
def refused(V):
    K = V.mod(MOD).DecoupledTransferMatrix
    case = V.choice('case', range(6))
    I = lambda r, c, s=1.: [[s if i == j else 0. for j in range(c)] for i in range(r)]
    if case == 5:
        a, b, c_, d = V.real('a', -3, 3), V.real('b', -3, 3), V.real('c', -3, 3), V.real('d', -3, 3)
        V.assume(V.absv(a * d - b * c_ - 1.) > 1e-5)
        m = [[a, b], [c_, d]]
    else: m = [I(2, 3), I(3, 2), I(3, 3), I(1, 1), I(4, 4, 1.1)][case]
    V.raises('refused', ValueError, K, V.array(m) if V.choice('type', [0, 1]) else V.list([V.list(r) for r in m]))

@contract('P32', 'decoupling', [D + '__init__', D + '_get_decoupling', D + 'get_v_m', D + 'get_phase_advance', D + 'get_beta', D + 'get_alpha', D + 'get_gamma'], mode='bounded', runs=1)
def decoupling(V):
    """stable symplectic matrices of one, two and three degrees of freedom, coupled and uncoupled"""
    import numpy as n, math, cmath
    K = V.mod(MOD).DecoupledTransferMatrix
    d = V.choice('planes', [1, 2, 3]); coupled = V.choice('coupled', [True, True, False])
    M = n.zeros((2 * d, 2 * d)); mus = []
    for i in range(d):
        mu = V.real('mu%d' % i, 0.15, 3.0)
        for m_ in mus: V.assume(abs(m_ - mu) > 0.1)
        mus.append(mu); s_ = V.choice('sign%d' % i, [1, -1]); mu = mu * s_
        b = V.real('beta%d' % i, 0.3, 5); a = V.real('alpha%d' % i, -2, 2); g = (1 + a * a) / b
        c, s = math.cos(mu), math.sin(mu)
        M[2 * i:2 * i + 2, 2 * i:2 * i + 2] = [[c + a * s, b * s], [-g * s, c - a * s]]
    J = n.kron(n.eye(d), [[0, 1], [-1, 0]])
    if coupled and d > 1:
        S = n.array([[V.real('s%d%d' % (min(i, j), max(i, j)), -0.5, 0.5) for j in range(2 * d)] for i in range(2 * d)])
        S = (S + S.T) / 2; A = J @ S          # Hamiltonian matrix; its Cayley transform is symplectic
        C = n.linalg.inv(n.eye(2 * d) - A / 2) @ (n.eye(2 * d) + A / 2)
        V.assume(n.linalg.cond(C) < 50)
        M = C @ M @ n.linalg.inv(C)
    V.assume(abs(M.T @ J @ M - J).max() < 1e-9)
    keep = M.copy(); out = K(M if V.choice('type', [0, 1]) else M.tolist())
    V.check('input-kept', (M == keep).all())
    V.eq('planes', out.dim, d)
    sc = 1. + abs(M).max() ** 2
    R, T = n.array(out.r), n.array(out.t)
    V.check('finite', n.isfinite(R).all() and n.isfinite(T).all())
    sc = sc * (1 + abs(R).max() ** 2) * (1 + abs(n.linalg.inv(R)).max())
    V.check('M-R-is-R-T', abs(M @ R - R @ T).max() < 1e-7 * sc)
    for i in range(d):
        for j in range(d):
            if i != j: V.check('block-diagonal', abs(T[2 * i:2 * i + 2, 2 * j:2 * j + 2]).max() < 1e-7 * sc)
    ev = n.linalg.eigvals(M)
    got = []
    for i in range(d):
        ph = out.get_phase_advance(i); got.append(abs(ph))
        V.check('phase-is-of-an-eigenvalue', min(abs(ev - cmath.exp(1j * ph))) < 1e-6)
        V.check('phase-of-its-plane', abs((T[2 * i, 2 * i] + T[2 * i + 1, 2 * i + 1]) / 2 - math.cos(ph)) < 1e-6 * sc)
        b, a, g = out.get_beta(i), out.get_alpha(i), out.get_gamma(i)
        V.check('beta-gamma-alpha', abs(b * g - a * a - 1.) < 1e-7 * (1 + b * g + a * a)); V.check('beta-positive', b > 0)
        if d == 1 or not coupled:
            # the plane with this phase advance
            k = min(range(d), key=lambda q: abs(mus[q] - abs(ph)))
            bt = V.used['beta%d' % k]; at = V.used['alpha%d' % k]
            V.eq('its-beta', b, bt, tol=1e-5); V.eq('its-alpha', a, at, tol=1e-5)
    for x, y in zip(sorted(got), sorted(mus)): V.eq('every-phase-once', x, y, tol=1e-5)
    eps = [V.real('eps%d' % i, 0.1, 10) for i in range(d)]
    v = out.get_v_m(eps)
    V.check('real-covariance', n.isrealobj(v) and abs(v - v.T).max() < 1e-7 * sc * (1 + abs(v).max()))
    V.check('matched', abs(M @ v @ M.T - v).max() < 1e-6 * sc * (1 + abs(v).max()))
    V.check('positive', n.linalg.eigvalsh((v + v.T) / 2).min() > -1e-9 * abs(v).max())
    v2 = out.get_v_m(eps); V.check('repeatable', (v == v2).all())
    lin = sum([(out.get_v_m([eps[k] if k == i else 0. for k in range(d)])) for i in range(d)])
    V.check('each-emittance-its-own-plane', abs(lin - v).max() < 1e-7 * sc * (1 + abs(v).max()))
    V.raises('wrong-number-of-emittances', ValueError, out.get_v_m, eps + [1.])
