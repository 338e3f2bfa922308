"""P21 ranges, sorting, substitution"""
from dv.api import contract
COM = 'xboa/common/_common.py:'

def setup(V, weighted):
    c = V.mod('xboa.common')
    n = V.size('n', 0)
    x = V.seq('x', n); x0 = V.fn(x)
    w = None
    if weighted:
        w = V.seq('w', n, gen=(lambda r, k: [r.choice([0., 0., 1., 0.5, 2., 1e-9]) for _ in range(k)]) if V.conc else None)
    margin = V.real('margin', 0, 3)
    return c, n, x, x0, V.fn(w) if weighted else None, w, margin

def spec(V, n, x, pred, margin):
    if pred is None: some = (n > 0)
    else: some = V.exists(n, pred)
    a, b = (V.extreme('min', n, lambda i: x(i), pred), V.extreme('max', n, lambda i: x(i), pred)) if some else (0., 0.)
    lo, hi = a - (b - a) * margin, b + (b - a) * margin
    widen = (hi - lo < 1e-9) if V.conc else bool(hi - lo < 1e-9)
    if widen: lo, hi = lo - 1., hi + 1.
    return some, a, b, lo, hi

@contract('P21', 'min-max', [COM + 'min_max'])
def mm(V):
    weighted = V.choice('weighted', [False, True])
    c, n, x, x0, w, wl, margin = setup(V, weighted)
    lim = V.choice('limits', [0, 1, 2, 3])
    kw = {}
    if lim & 1: kw['xmin'] = V.real('xmin')
    if lim & 2: kw['xmax'] = V.real('xmax')
    if weighted: kw['weight_list'] = wl
    if weighted: V.listhint('kept', lambda i: x0(i), pred=lambda i: w(i) > 1e-6)
    r = c.min_max(x, margin=margin, **kw)
    some, a, b, lo, hi = spec(V, n, x0, (lambda i: w(i) > 1e-6) if weighted else None, margin)
    V.eq('lower', r[0], kw.get('xmin', lo)); V.eq('upper', r[1], kw.get('xmax', hi))
    V.eq('pair', len(r), 2)
    if lim == 0:
        V.check('never-empty', r[1] > r[0])
        def contains(i):
            V.instantiate(i)
            sel = w(i) > 1e-6 if weighted else True
            V.check('contains', V.implies(sel, V.and_(r[0] <= x0(i) + (1e-9 if V.conc else 0), x0(i) <= r[1] + (1e-9 if V.conc else 0))) if weighted or V.conc else V.and_(r[0] <= x0(i), x0(i) <= r[1]))
        V.forall('contains', n, contains)
    V.seq_eq('input-kept', x, n, lambda i: x0(i))

@contract('P21', 'min-max-default-margin', [COM + 'min_max'])
def mmd(V):
    c = V.mod('xboa.common')
    n = V.size('n', 1); x = V.seq('x', n); xf = V.fn(x)
    r = c.min_max(x)
    a, b = V.extreme('min', n, lambda i: xf(i)), V.extreme('max', n, lambda i: xf(i))
    V.assume(b - a > 1e-3)
    V.eq('lower', r[0], a - (b - a) * 0.1); V.eq('upper', r[1], b + (b - a) * 0.1)

@contract('P21', 'min-max-other-length', [COM + 'min_max'])
def mmo(V):
    c = V.mod('xboa.common')
    n = V.size('n', 0); x = V.seq('x', n); x0 = V.fn(x)
    m = V.size('m', 0); w = V.seq('w', m)
    V.assume(V.not_(n == m))
    margin = V.real('margin', 0, 3)
    r = c.min_max(x, w, margin)
    some, a, b, lo, hi = spec(V, n, x0, None, margin)
    V.eq('lower', r[0], lo); V.eq('upper', r[1], hi)
    V.seq_eq('input-kept', x, n, lambda i: x0(i))

@contract('P21', 'multisort', [COM + 'multisort'])
def msort(V):
    c = V.mod('xboa.common')
    m = V.choice('lists', [1, 2, 3])
    n = V.size('n', 0)
    ls = [V.seq('l%d' % j, n, gen=(lambda r, k: [float(r.randint(0, 3)) + r.choice([0., 0., 1e-11, 1e-7, -1e-9]) for _ in range(k)]) if V.conc else None) for j in range(m)]
    old = [V.fn(l) for l in ls]; cols = [list(l) for l in ls] if V.conc else None
    p = V.perm()
    V.listhint('column', lambda i: V.list([old[j](i) for j in range(m)]))
    V.listhint('rows', lambda i: [old[j](i) for j in range(m)])
    for j in range(m): V.prefixhint('sorted%d' % j, lambda i, j=j: old[j](p(i)))
    arg = V.list(ls)
    out = c.multisort(arg)
    V.check('same-object', out is arg)
    V.eq('lists-kept', len(out), m)
    if V.conc:
        rows, got = list(zip(*cols)), list(zip(*out))
        V.check('permutation', sorted(rows) == sorted(got), '%s -> %s' % (rows, got))
        V.check('ordered', all(a <= b for a, b in zip(out[0], out[0][1:])))
        return
    for j in range(m):
        V.seq_eq('permutation', out[j], n, lambda i: old[j](p(i)))
    def bij(i):
        V.check('bijection', p.inv(p(i)) == i); V.check('onto', p(p.inv(i)) == i)
    if p.n is not None: V.forall('bijective', n, bij)
    else: V.check('sorted-by-builtin', n < 2)
    def step(i):
        V.check('ordered', old[0](p(i)) <= old[0](p(i + 1)))
    V.forall('order', n - 1, step)

@contract('P21', 'substitute', [COM + 'substitute'], mode='bounded', runs=300)
def subst(V):
    import os
    c = V.mod('xboa.common')
    alphabet = ['a', 'b', 'key', 'value', ' ', '\n', '.', '1', 'K', '\t', 'é', '__', '%s', '\\n']
    text = ''.join(alphabet[i] for i in V.seq('text', V.size('n', 0), 0, len(alphabet) - 1, kind='I'))
    keys = ['K', '1', '%s'] ; k = V.choice('keys', [0, 1, 2, 3])
    vals = [V.choice('v%d' % i, ['', 'zz', 3, 2.5, 'x\ty']) for i in range(3)]
    d = dict(zip(keys[:k], vals))
    if V.choice('int-key', [0, 1]) and k >= 2: d = {(1 if q == '1' else q): v for q, v in d.items()}
    fin, fout = os.path.join(V.scratch, 'in.txt'), os.path.join(V.scratch, 'out.txt')
    open(fin, 'w').write(text)
    c.substitute(fin, fout, d)
    want = ''; i = 0
    tab = [(str(q), str(v)) for q, v in d.items()]
    while i < len(text):
        for q, v in tab:
            if text.startswith(q, i): want += v; i += len(q); break
        else: want += text[i]; i += 1
    V.eq('output', open(fout).read(), want)
    V.eq('input-kept', open(fin).read(), text)
