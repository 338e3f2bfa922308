"""P06 arithmetic of weight tables.  The tables hold arbitrary weights for arbitrary identities and the identity that is
looked at is arbitrary.  Symbolic runs execute the translated C++ (PyWeightContext.cc, WeightContext.hh/.hpp)."""
from dv.api import contract
W = 'xboa/core/cpplib/WeightContext.hpp:WeightContext::'
PY = 'xboa/core/pylib/PyWeightContext.cc:'
OPS = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b, 'divide': lambda a, b: a / b}
NEUTRAL = {'add': 0., 'subtract': 0., 'multiply': 1., 'divide': 1.}

def unchanged(V, name, T, k):
    V.eq(name + '.weight', T.wc.get_weight(*k), T.at(*k), tol=0.)
    V.eq(name + '.default', T.wc.get_default_weight(), T.default, tol=0.)

def loop_hints(V, op, A, other, hit):
    """what the two loops of a table operation do to an entry they have passed: the first adds the identities of the right hand
    table with the default weight, the second combines the weight with the other operand's"""
    V.prefixhint('adopt', lambda k, p, v: (True, V.ite(p, v, A)), target='cxxmap')
    V.prefixhint(op, lambda k, p, v: (p, V.quot(v, other(*k)) if op == 'divide' else OPS[op](v, other(*k))), target='cxxmap')

@contract('P06', 'table-table', [W + f for f in ('add', 'subtract', 'multiply', 'divide', 'adoptHits', 'getWeight', 'WeightContext', 'operator=')] + [PY + 'binary_operator'], budget=120)
def table_table(V):
    op = V.choice('op', sorted(OPS)); f = OPS[op]
    A, B, C = V.weights('A'), V.weights('B'), V.weights('C')
    k = V.hitid('k', A, B)
    if op == 'divide': V.assume(B.at(*k) != 0); V.assume(B.default != 0)
    if op == 'divide' and V.conc:
        for i in A.ids + B.ids: V.assume(B.at(*i) != 0)
    loop_hints(V, op, A.default, B.key_at, k)
    R = f(A.wc, B.wc)
    V.eq('result', R.get_weight(*k), f(A.at(*k), B.at(*k)))
    V.eq('default', R.get_default_weight(), f(A.default, B.default))
    unchanged(V, 'left', A, k); unchanged(V, 'right', B, k); unchanged(V, 'other', C, k)
    # the result is a table of its own
    x = V.real('x')
    R.set_weight(x, *k)
    V.eq('own.result', R.get_weight(*k), x, tol=0.)
    unchanged(V, 'own.left', A, k); unchanged(V, 'own.right', B, k)

@contract('P06', 'same-table-twice', [W + f for f in ('add', 'subtract', 'multiply', 'divide', 'adoptHits')], budget=120)
def aliased(V):
    op = V.choice('op', sorted(OPS)); f = OPS[op]
    A = V.weights('A')
    k = V.hitid('k', A)
    if op == 'divide': V.assume(A.at(*k) != 0); V.assume(A.default != 0)
    if op == 'divide' and V.conc:
        for i in A.ids: V.assume(A.at(*i) != 0)
    loop_hints(V, op, A.default, A.key_at, k)
    R = f(A.wc, A.wc)
    V.eq('result', R.get_weight(*k), f(A.at(*k), A.at(*k)))
    V.eq('default', R.get_default_weight(), f(A.default, A.default))
    unchanged(V, 'operand', A, k)

@contract('P06', 'table-number', [W + f for f in ('add', 'subtract', 'multiply', 'divide')] + [PY + 'binary_operator', PY + 'parseArg'], budget=120)
def table_number(V):
    op, left = V.choice('op', [('add', True), ('add', False), ('subtract', False), ('multiply', True), ('multiply', False), ('divide', False)]); f = OPS[op]
    A = V.weights('A')
    k = V.hitid('k', A); s = V.real('s')
    if V.choice('integer', [False, True]): s = V.integer('n', -5, 5)
    if op == 'divide': V.assume(s != 0)
    loop_hints(V, op, A.default, lambda *key: s, k)
    R = f(s, A.wc) if left else f(A.wc, s)
    V.eq('result', R.get_weight(*k), f(A.at(*k), s))
    V.eq('default', R.get_default_weight(), f(A.default, s))
    unchanged(V, 'operand', A, k)
    R.set_weight(V.real('x'), *k)
    unchanged(V, 'own', A, k)

@contract('P06', 'refused', [PY + 'binary_operator', PY + 'parseArg'], budget=60)
def refused(V):
    A, s = V.weights('A'), V.real('s')
    k = V.hitid('k', A)
    V.raises('number-minus-table', Exception, lambda: s - A.wc)
    V.raises('number-over-table', Exception, lambda: s / A.wc)
    bad = V.choice('bad', [None, 'text', (1., 2.), {}])
    for name in sorted(OPS):
        V.raises('%s.right' % name, Exception, lambda: OPS[name](A.wc, bad))
        V.raises('%s.left' % name, Exception, lambda: OPS[name](bad, A.wc))
    unchanged(V, 'operand', A, k)

@contract('P06', 'not', [W + 'op_not', PY + 'unary_operator'], budget=120)
def inverted(V):
    A = V.weights('A')
    k = V.hitid('k', A)
    V.prefixhint('not', lambda key, p, v: (p, V.ite(v == 0, A.default, 0.)), target='cxxmap')
    R = ~A.wc
    # an identity never written has the default weight: non-zero gives zero, and a zero default gives the default, zero
    V.eq('result', R.get_weight(*k), V.ite(A.at(*k) == 0, A.default, 0.))
    V.eq('default', R.get_default_weight(), 0., tol=0.)
    unchanged(V, 'operand', A, k)
