"""P11 the moment tensor"""
import itertools
from dv.api import contract
from contracts.corelib import Core, DOUBLES
CORE = 'xboa/core/cpplib/Bunchcore.cc:Bunchcore::'
PYB = 'xboa/core/pylib/PyBunchcore.cc:'
INDEX = [CORE + f for f in ('get_index_by_power', 'get_index_by_power_recurse')]

CASES = [(['x'], 1), (['px'], 3), (['x', 'px'], 2), (['weight', 'y'], 2), (['x', 'px', 'energy'], 1), (['x', 'y', 'z', 'px', 'py', 'pz'], 1)]
LARGER = [(['t', 'x'], 3), (['x', 'y', 'z'], 2), (['x', 'px', 'y', 'py'], 3), (['energy'], 6)]   # concrete runs only

def multi(order, axes):
    return [p for p in itertools.product(range(order + 1), repeat=axes) if sum(p) <= order]

@contract('P11', 'index-list', INDEX + [PYB + 'index_by_power'], budget=200, bound='up to four variables with order up to four, six variables with order up to two, one variable with order up to twelve')
def index_list(V):
    order, axes = V.choice('size', [(o, a) for a in (1, 2, 3, 4) for o in (0, 1, 2, 3, 4)] + [(1, 6), (2, 6), (12, 1), (7, 2)])
    L = V.lib()
    got = L.Bunchcore().index_by_power(order, axes)
    rows = [[got[i][j] for j in range(int(V.len(got[i])))] for i in range(int(V.len(got)))]
    V.check('first-is-zero', rows[0] == [0] * axes)
    V.check('each-once', sorted(map(tuple, rows)) == sorted(multi(order, axes)))

@contract('P11', 'tensor', [CORE + 'get_moment_tensor', CORE + 'bunch_weight', PYB + 'moment_tensor'] + INDEX, budget=300, tmo=20, bound='every content of the core and every number of hits; one variable with order up to three, two variables with order up to two, six variables with order one')
def tensor(V):
    C = Core(V)
    vs, order = V.choice('case', CASES + (LARGER if V.conc else []))
    V.assume(V.absv(C.total) > 1e-15)
    want = {}
    def term(ix):
        def t(i):
            p = 1.
            for v, k in zip(vs, ix):
                for _ in range(k): p = p * C.value(v, i)
            return p
        return t
    idx = multi(order, len(vs))
    for ix in idx: want[ix] = C.average('t_' + '_'.join(map(str, ix)), term(ix))
    bc = C.bc
    got = bc.moment_tensor(V.list(list(vs)) if not V.conc else list(vs), order)
    ind = bc.index_by_power(order, len(vs))
    V.eq('entries', V.len(got), len(idx)); V.eq('indices', V.len(ind), len(idx))
    for k in range(len(idx)):
        ix = tuple(int(ind[k][j]) for j in range(len(vs)))
        V.check('an-index-of-the-list', ix in want)
        V.eq('weighted-raw-moment', got[k], want[ix], scale=C.size(lambda i: abs(term(ix)(i))))
    C.unchanged()

@contract('P11', 'refused', [CORE + 'get_moment_tensor', PYB + 'moment_tensor', PYB + 'index_by_power'], budget=100)
def refused(V):
    C = Core(V, heavy=False)
    bc = C.bc; l = lambda *a: V.list(list(a)) if not V.conc else list(a)
    V.raises('negative-order', Exception, lambda: bc.moment_tensor(l('x'), -1))
    V.raises('unknown-variable', Exception, lambda: bc.moment_tensor(l('x', 'nothing'), 1))
    V.raises('negative-index-order', Exception, lambda: bc.index_by_power(-1, 2))
    V.raises('no-axes', Exception, lambda: bc.index_by_power(2, -1))
    C.unchanged()
