"""P18 user-defined column formats"""
from dv.api import contract
BUN = 'xboa/bunch/_bunch.py:Bunch.'
HIT = 'xboa/hit/_hit.py:Hit.'
FAC = 'xboa/hit/factory/_user_hit_factory.py:UserHitFactory.'
LIN = 'xboa/hit/factory/_line_factory_base.py:LineFactoryBase.'
UNITS = {'length': ['mm', 'm', 'cm'], 'time': ['ns', 's'], 'momentum': ['MeV/c', 'GeV/c'], 'energy': ['MeV', 'GeV'], 'mass': ['MeV/c2', 'GeV/c2'], 'b': ['T', 'kT'], 'e': ['GV/m', 'GV/mm'], 'none': ['']}
KIND = dict([(k, 'length') for k in ('x', 'y', 'z', 'path_length')] + [(k, 'time') for k in ('t', 'proper_time')] + [(k, 'momentum') for k in ('px', 'py', 'pz')] + [('energy', 'energy'), ('e_dep', 'energy'), ('mass', 'mass')]
            + [(k, 'b') for k in ('bx', 'by', 'bz')] + [(k, 'e') for k in ('ex', 'ey', 'ez')] + [(k, 'none') for k in ('sx', 'sy', 'sz', 'charge', 'local_weight', 'global_weight', 'station', 'pid', 'status', 'spill', 'event_number', 'particle_number', 'eventNumber', 'particleNumber')])
# values of the units in the internal system mm, ns, MeV, kT
SIZE = {'': 1., 'mm': 1., 'm': 1e3, 'cm': 10., 'ns': 1., 's': 1e9, 'MeV/c': 1., 'GeV/c': 1e3, 'MeV': 1., 'GeV': 1e3, 'MeV/c2': 1., 'GeV/c2': 1e3, 'T': 1e-3, 'kT': 1., 'GV/m': 1., 'GV/mm': 1e3}
FORMATS = [['x', 'pid'], ['mass', 'x', 'px', 't', 'pid', 'charge'], ['pid', 'station', 'spill', 'event_number', 'particle_number', 'status', 'local_weight', 'global_weight'], ['global_weight', 'spill', 'pid', 'particle_number', 'event_number'],
           ['pid', 'y', 'z', 'py', 'pz', 'energy', 'bx', 'by', 'bz'], ['ex', 'ey', 'ez', 'sx', 'sy', 'sz', 'pid', 'mass'], ['path_length', 'proper_time', 'e_dep', 'charge', 'mass', 'eventNumber', 'particleNumber', 'pid']]

def units_of(V, fmt, which):
    u = {k: UNITS[KIND[k]][which % len(UNITS[KIND[k]])] for k in fmt if k}
    return u

class Rows(object):
    """m hits with arbitrary values (known particle ids) and what has to be read back"""
    def __init__(self, V, m, fmt):
        self.V, self.hits = V, []
        b = V.Bunch()()
        V.arbitrary_table()
        for i in range(m):
            pid = V.choice('pid%d' % i, [-13, 2212] if i == 0 else [11, -211])
            h = V.hit('h%d' % i, pid=pid) if not V.conc else V.hit('h%d' % i, pid=pid, status=V.integer('st%d' % i, -99, 99))
            if 'global_weight' in fmt:
                # distinct identities, so that each weight is its own
                h.set('event_number', i); h.set('global_weight', V.real('global%d' % i, 0, 5))
            b.append(h); self.hits.append(h)
        self.b = b
        self.before = [dict(V.snapshot(h), global_weight=h.get('global_weight')) for h in self.hits]
    def value(self, i, k): return self.before[i][self.V.alias(k)]
    def kept(self):
        V = self.V
        for i, h in enumerate(self.hits):
            now = dict(V.snapshot(h), global_weight=h.get('global_weight'))
            for k in now: V.eq('written-hits-kept', now[k], self.before[i][k])

def expected(V, rows, i, fmt):
    """variables of the hit read back from row i"""
    mod = V.module('xboa.common')
    pid = V.snapshot(rows.hits[i])['pid']
    d = {k: (1. if k == 'local_weight' else 0) for k in V.DOUBLES + V.INTS + ['local_weight']}
    for k in fmt:
        if k and k != 'global_weight': d[V.alias(k)] = rows.value(i, k)
    if 'mass' not in fmt: d['mass'] = mod.pdg_pid_to_mass[abs(d['pid'])]
    if 'charge' not in fmt: d['charge'] = mod.pdg_pid_to_charge[d['pid']]
    return d

def same(V, name, h, want, tol=1e-9):
    got = V.snapshot(h)
    for k in want: V.eq(name, got[k], want[k], **({'tol': tol} if V.conc else {}))

FNS = [BUN + 'hit_write_user', BUN + 'new_from_read_user', HIT + 'write_user_formatted', HIT + '__write_formatted', HIT + 'new_from_read_user', LIN + '_read_formatted', FAC + '__init__', FAC + 'make_hit']

@contract('P18', 'round-trip', FNS, budget=200, paths=9000, bound='files of two hits, every value; the listed column lists')
def trip(V):
    fmt, which, blank, skip, sep = V.choice('case', [(f, w, bl, sk, se) for n, f in enumerate(FORMATS) for w, bl, sk, se in ((0, None, 0, ' '), (1, 0, 2, '\t'), (2, len(f) // 2, 1, '   '))])
    fmt = list(fmt)
    if blank is not None: fmt.insert(blank, '')
    rows = Rows(V, 2, fmt)
    units = units_of(V, fmt, which); u0 = dict(units); f0 = list(fmt)
    fh = V.fileobj('header line of a user file\n' * skip)
    B = V.Bunch()
    wfmt = list(fmt)
    comparator = None
    order = [0, 1]
    if sep == '\t':
        a = rows.value(0, 'x') if 'x' in fmt else rows.value(0, 'pid'); c = rows.value(1, 'x') if 'x' in fmt else rows.value(1, 'pid')
        V.assume(a != c)
        order = [0, 1] if bool(a > c) else [1, 0]
        key = 'x' if 'x' in fmt else 'pid'
        comparator = lambda p, q: -1 if p[key] > q[key] else 1 if p[key] < q[key] else 0
    rows.b.hit_write_user(wfmt, dict(units, **{'': ''}), fh, sep, comparator) if comparator else rows.b.hit_write_user(wfmt, dict(units, **{'': ''}), fh, sep)
    rows.kept()
    if not V.conc: fh.seek(0)
    r = B.new_from_read_user(fmt, units, fh, skip)
    V.check('closed', fh.closed)
    V.eq('hits', V.len(r), 2)
    for i in range(2):
        same(V, 'read-back', r[i], expected(V, rows, order[i], fmt))
        if 'global_weight' in fmt and 'particle_number' in fmt and 'spill' in fmt and 'event_number' in fmt: V.eq('global-weight', r[i].get('global_weight'), rows.value(order[i], 'global_weight'))
    V.check('units-kept', units == u0 and fmt == f0)

@contract('P18', 'written-values', [HIT + 'write_user_formatted', HIT + '__write_formatted'], budget=60, bound='the listed column lists')
def written(V):
    """the columns of the file hold the values in the units asked for"""
    fmt, which = V.choice('case', [(f, w) for f in FORMATS for w in (0, 1, 2)])
    rows = Rows(V, 1, fmt)
    units = units_of(V, fmt, which)
    fh = V.fileobj('')
    rows.hits[0].write_user_formatted(fmt, units, fh, ' ')
    if not V.conc: fh.seek(0)
    line = fh.readline()
    words = line.split()
    V.eq('columns', V.len(words), len(fmt))
    for k, w in zip(fmt, words):
        v = rows.value(0, k)
        V.eq('value', V.number(w) * SIZE[units[k]], v, **({'scale': abs(float(v)) if v else 1., 'tol': 1e-9} if V.conc else {}))
    rows.kept()

@contract('P18', 'malformed-lines', FNS, budget=100, bound='five lines, every value')
def malformed(V):
    """bad lines are skipped; their neighbours are read"""
    B = V.Bunch()
    fmt = ['x', 'pid', 'y', 'station']
    where, what = V.choice('case', [(w, t) for w in (0, 1, 2) for t in ('1.0 -13 2.0\n', '1.0 -13 2.0 3 4\n', '1.0 -13 word 3\n', 'x -13 1.0 3\n', '1.0 pid 2.0 3\n', '1.0 -13 2.0 station\n', '\n', '   \n', '1.0 -13 1e 3\n', '1.0 inf 1.0 3\n', '1.0 -13 1.0 nan\n')])
    good = [(V.real('x%d' % i, -99, 99), V.choice('pid', [-13, 211]), V.real('y%d' % i, -99, 99), V.integer('s%d' % i, -99, 99)) for i in range(2)]
    fh = V.fileobj('')
    n = 0
    for i in range(3):
        if i == where:
            fh.write(what)
            if V.choice('twice', [0, 1]): fh.write(what)
        if i < 2:
            for q, v in enumerate(good[i]): fh.write(V.text(v)); fh.write(' ' if q < 3 else '\n')
    if not V.conc: fh.seek(0)
    r = B.new_from_read_user(fmt, {'x': 'm', 'y': 'mm'}, fh, 0)
    V.eq('hits', V.len(r), 2)
    for i in range(2):
        h = r[i]
        for k, v in zip(fmt, good[i]): V.eq('neighbours-read', h.get(k), v * 1000. if k == 'x' else v)
        V.eq('mass', h.get('mass'), V.module('xboa.common').pdg_pid_to_mass[abs(good[i][1])])
    V.check('closed', fh.closed)

@contract('P18', 'selection', [BUN + 'new_from_read_user'], budget=100, bound='four lines, every value')
def selection(V):
    """test function, number of hits and skipped lines"""
    B = V.Bunch()
    skip, most, test = V.choice('case', [(s, m, t) for s in (0, 1, 3) for m in (-1, 0, 1, 2, 9) for t in (0, 1)])
    xs = [V.real('x%d' % i, -9, 9) for i in range(4)]; c = V.real('cut', -9, 9)
    fh = V.fileobj('')
    for x in xs: fh.write(V.text(x)); fh.write(' -13\n')
    if not V.conc: fh.seek(0)
    tested = []
    def f(h): tested.append(h); return h.get('x') > c
    r = B.new_from_read_user(['x', 'pid'], {'x': 'mm'}, fh, skip, f if test else None, most)
    want = [x for x in xs[skip:] if not test or bool(x > c)]
    if most >= 0: want = want[:most]
    V.eq('hits', V.len(r), len(want))
    for i, x in enumerate(want): V.eq('value', r[i].get('x'), x)
    V.check('closed', fh.closed)

@contract('P18', 'refused-formats', [FAC + '__init__', BUN + 'new_from_read_user'], budget=60)
def refused(V):
    """nothing is read from the file"""
    fmt, units = V.choice('case', [(['x', 'nothing'], {'x': 'mm'}), (['x', 'pid'], {}), (['x', 'y', 'pid'], {'x': 'mm'}), (['x', 'pid'], {'x': 'furlong'}), (['pid', 't', 'x'], {'t': 'ns', 'x': 'mmm'}), (['X', 'pid'], {'X': 'mm'}), (['weight', 'pid'], {'weight': ''}), (['pid', 'local_weight'], {}), (['energy '], {'energy ': 'MeV'})])
    fh = V.fileobj('1.0 -13\n2.0 -13\n')
    if not V.conc: fh.seek(0)
    V.raises('refused', KeyError, lambda: V.Hit().new_from_read_user(list(fmt), dict(units), fh))
    V.eq('nothing-read', fh.readline(), '1.0 -13\n')

@contract('P18', 'mass-shell', [FAC + 'make_hit'], budget=60)
def shell(V):
    x, px, e = V.real('px', -90, 90), V.real('py', -90, 90), V.real('pz', -90, 90)
    mode = V.choice('mode', ['', 'energy', 'default'])
    fh = V.fileobj('')
    for q, v in enumerate((x, px, e, -13)): fh.write(V.text(v)); fh.write(' ' if q < 3 else '\n')
    if not V.conc: fh.seek(0)
    args = (['px', 'py', 'pz', 'pid'], {'px': 'MeV/c', 'py': 'MeV/c', 'pz': 'GeV/c'}, fh)
    h = V.Hit().new_from_read_user(*(args if mode == 'default' else args + (mode,)))
    m = V.module('xboa.common').pdg_pid_to_mass[13]
    V.eq('mass', h.get('mass'), m)
    V.eq('pz', h.get('pz'), e * 1000.)
    V.eq('energy', h.get('energy') * h.get('energy'), m * m + x * x + px * px + e * e * 1e6 if mode == 'energy' else 0., tol=1e-7)
    V.eq('charge', h.get('charge'), 1.)

@contract('P18', 'any-columns', FNS, mode='bounded', runs=120, maxn=12)
def anycols(V):
    """random column lists, units, separators and bad lines (up to 12 hits)"""
    import random
    r = random.Random(V.integer('seed', 0, 10 ** 9))
    n = V.size('n')
    cols = sorted(KIND)
    fmt = r.sample(cols, r.randint(1, 9))
    for a, b in (('eventNumber', 'event_number'), ('particleNumber', 'particle_number')):
        if a in fmt and b in fmt: fmt.remove(a)
    if 'pid' not in fmt: fmt.insert(r.randint(0, len(fmt)), 'pid')
    for k in range(r.choice([0, 0, 1, 2])): fmt.insert(r.randint(0, len(fmt)), '')
    units = {k: r.choice(UNITS[KIND[k]]) for k in fmt if k}
    B, H = V.Bunch(), V.Hit()
    b = B()
    vals = []
    for i in range(n):
        h = H()
        d = {}
        for k in cols:
            if k in ('eventNumber', 'particleNumber', 'global_weight'): continue
            d[k] = r.choice([-13, 13, 11, 2212, 211]) if k == 'pid' else r.randint(-1000, 1000) if k in V.INTS else r.choice([0., r.uniform(-1, 1), r.uniform(-1e4, 1e4), r.uniform(-1, 1) * 10 ** r.randint(-12, 12)])
        for k in d: h.set(k, d[k])
        h.set('global_weight', r.choice([1., 0.5, 3.]))
        b.append(h)
    before = [dict(V.snapshot(h), global_weight=h['global_weight']) for h in b]
    fh = V.fileobj('# %d\n' * 0)
    skip = r.choice([0, 1, 3])
    fh.write('skipped 1 2\n' * skip)
    import io
    sep = r.choice([' ', '\t', '   '])
    bad = ['junk\n', ' '.join(['1'] * (len(fmt) + 1)) + '\n', ' '.join(['1'] * (len(fmt) - 1)) + '\n', '\n']
    for h in b:
        while r.random() < 0.2: fh.write(r.choice(bad))
        one = B(); one.append(h)
        one.hit_write_user(fmt, dict(units, **{'': ''}), fh, sep)
    if r.random() < 0.3: fh.write(r.choice(bad))
    for h, q in zip(b, before):
        for k in q: V.eq('written-hits-kept', h[k] if k != 'x' else h['x'], q[k])
    ids = {}
    out = B.new_from_read_user(fmt, units, fh, skip)
    if len(fmt) == 1: V.assume(not any(False for _ in ()))
    V.eq('hits', len(out), n)
    mod = V.module('xboa.common')
    for i in range(n):
        for k in fmt:
            if not k or k == 'global_weight': continue
            v = before[i][V.alias(k)]
            V.eq('read-back', out[i][k], v, scale=max(abs(v), 1e-30), tol=1e-12)
        if 'mass' not in fmt: V.eq('mass', out[i]['mass'], mod.pdg_pid_to_mass[abs(before[i]['pid'])])
        if 'charge' not in fmt: V.eq('charge', out[i]['charge'], mod.pdg_pid_to_charge[before[i]['pid']])
