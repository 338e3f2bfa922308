"""P17 built-in text formats"""
from dv.api import contract
BUN = 'xboa/bunch/_bunch.py:Bunch.'
HIT = 'xboa/hit/_hit.py:Hit.'
FAC = 'xboa/hit/factory/_builtin_hit_factory.py:BuiltinHitFactory.'
LIN = 'xboa/hit/factory/_line_factory_base.py:LineFactoryBase.'
C = 299.792458
# columns of the formats: (variable, size of the unit in mm, ns, MeV, kT, GV/m); '' is a column that is not used
def cols(text): return [(c.split('*')[0] if c != '-' else '', float(c.split('*')[1]) if '*' in c else 1.) for c in text.split()]
G4 = 'x y z px py pz t pid event_number particle_number - local_weight'
FORMAT = {'icool_for009': cols('event_number particle_number pid status station t*1e9 x*1e3 y*1e3 z*1e3 px*1e3 py*1e3 pz*1e3 bx*1e-3 by*1e-3 bz*1e-3 local_weight ex ey ez - sx sy sz'),
          'icool_for003': cols('event_number particle_number pid status t*1e9 local_weight x*1e3 y*1e3 z*1e3 px*1e3 py*1e3 pz*1e3 sx sy sz'),
          'g4beamline_bl_track_file': cols(G4), 'g4beamline_bl_track_file_2': cols(G4 + ' - - -'),
          'mars_1': cols('event_number pid x y z px*1e3 py*1e3 pz*1e3 energy*1e3 ct*10 local_weight')}
HEADER = {'icool_for009': 3, 'icool_for003': 2, 'g4beamline_bl_track_file': 2, 'g4beamline_bl_track_file_2': 2, 'mars_1': 0}
FORMATS = sorted(FORMAT)
G4BL = [f for f in FORMATS if 'g4b' in f]
PIDS = {'icool': {-11: 1, -13: 2, 211: 3, 321: 4, 2212: 5, 11: -1, 13: -2, -211: -3, -321: -4, -2212: -5},
        'mars': {2212: 1, 2112: 2, 211: 3, -211: 4, 321: 5, -321: 6, -13: 7, 13: 8, 22: 9, 11: 10, -11: 11, -2212: 12, 111: 13, 1000010020: 14, 1000010030: 15, 1000020030: 16, 1000020040: 17, 14: 18, -14: 19, 12: 20, -12: 21, 130: 22, 310: 23, 311: 24, -311: 25, 3122: 26, -3122: 27, -2112: 31},
        'g4': {k: k for k in (11, -11, 13, -13, 211, -211, 2212, 22, 321, 2112, 14, -14, 1000010020)}}
def pids(fmt): return PIDS[[k for k in PIDS if k in fmt][0]]
RANGE = {'pz': (50, 300), 'px': (-40, 40), 'py': (-40, 40), 'energy': (150, 400)}

class Disk(object):
    """the file: a scratch file, or symbolically a text object behind open() and glob"""
    def __init__(self, V, name='hits.txt'):
        self.V = V
        if V.conc:
            import os
            self.path = os.path.join(V.scratch, name); return
        self.path = name; self.f = None
        class Io: StringIO = staticmethod(lambda t='': V.fileobj(t))
        class Glob: glob = staticmethod(lambda p: [p])
        m = V.module('xboa.bunch._bunch')
        m.io = Io; m.glob = Glob
        V.set_open(self.open)
        V.trust('open, glob.glob and io.StringIO: a file gives back the text that was written to it; str of a number is read back as that number')
    def open(self, name, mode='r', *a):
        if name != self.path: raise IOError("no such file")
        if 'w' in mode: self.f = self.V.fileobj('')
        else: self.f.seek(0)
        return self.f
    def put(self, parts):
        V = self.V
        if V.conc:
            with open(self.path, 'w') as fh: fh.write(''.join([str(p) for p in parts])); return
        self.f = V.fileobj('')
        for p in parts: self.f.write(p)
    def lines(self):
        if self.V.conc: return open(self.path).readlines()
        self.f.seek(0); out = []
        while True:
            l = self.f.readline()
            if isinstance(l, str) and l == '': return out
            out.append(l)

def make(V, i, fmt, **kw):
    ch = sorted(pids(fmt))
    pid = V.choice('pid%d' % i, ch if V.conc else [ch[(3 * i) % len(ch)]])
    if V.conc:
        h = V.hit('h%d' % i, pid=pid, station=V.integer('station%d' % i, -3, 3), **{k: V.real('h%d_%s' % (i, k), *RANGE[k]) for k in RANGE})
    else: h = V.hit('h%d' % i, pid=pid, **kw)
    return h, dict(V.snapshot(h), global_weight=h.get('global_weight'))

def kept(V, hs, before):
    for h, q in zip(hs, before):
        now = dict(V.snapshot(h), global_weight=h.get('global_weight'))
        for k in q: V.eq('hits-in-memory-kept', now[k], q[k], **({'tol': 0} if V.conc else {}))

def check_read(V, h, want, fmt, factor=1.):
    """h has the variables that the format carries, and energy, mass and charge that follow from the particle id"""
    mod = V.module('xboa.common')
    got = V.snapshot(h); p = want['pid']
    named = [c for c, u in FORMAT[fmt]]
    T = {'tol': 1e-9} if V.conc else {}
    V.eq('pid', got['pid'], p)
    for k in V.DOUBLES + V.INTS + ['local_weight']:
        if k in ('pid', 'energy', 'mass', 'charge'): continue
        if k in named or (k == 't' and 'ct' in named): V.eq('carried', got[k], want[k] * (factor if k in 'xyz' else 1.), **T)
        else: V.eq('not-carried', got[k], 1. if k == 'local_weight' else 0)
    m = mod.pdg_pid_to_mass[abs(p)] if abs(p) in mod.pdg_pid_to_mass else 0.
    V.eq('mass', got['mass'], m, **T)
    if p in mod.pdg_pid_to_charge: V.eq('charge', got['charge'], float(mod.pdg_pid_to_charge[p]), **T)
    V.eq('mass-shell', got['energy'] * got['energy'], m * m + want['px'] * want['px'] + want['py'] * want['py'] + want['pz'] * want['pz'], **({'tol': 1e-7} if V.conc else {}))
    V.check('positive-energy', got['energy'] >= 0)

FNS = [HIT + 'write_list_builtin_formatted', HIT + 'write_builtin_formatted', HIT + '__write_formatted', HIT + 'open_filehandle_for_writing', HIT + 'file_header', BUN + 'hit_write_builtin', BUN + 'new_from_read_builtin', BUN + 'setup_file', HIT + 'new_from_read_builtin', FAC + 'make_hit', FAC + '__init__', LIN + '_read_formatted']

@contract('P17', 'round-trip', FNS, budget=200, paths=6000, bound='files of three hits, every value and station')
def trip(V):
    fmt, comment = V.choice('case', [(f, c) for f in FORMATS for c in (None, 'a comment')])
    m = 3 if not V.conc else V.size('hits', 0)
    hs, before = [], []
    V.arbitrary_table()
    b = V.Bunch()()
    for i in range(m):
        h, q = make(V, i, fmt); hs.append(h); b.append(h)
    before = [dict(V.snapshot(h), global_weight=h.get('global_weight')) for h in hs]
    d = Disk(V)
    st = [q['station'] for q in before]
    order = sort(V, st)
    b.hit_write_builtin(fmt, d.path, comment) if comment else b.hit_write_builtin(fmt, d.path)
    kept(V, hs, before)
    V.eq('bunch-kept', V.len(b), m)
    for i in range(m): V.check('bunch-kept', b[i] is hs[i])
    r = V.Bunch().new_from_read_builtin(fmt, d.path)
    V.eq('hits', V.len(r), m)
    for i in range(m): check_read(V, r[i], before[order[i]], fmt)

def sort(V, keys):
    """stable order of the keys"""
    out = []
    for i, k in enumerate(keys):
        j = len(out)
        while j > 0 and bool(k < keys[out[j - 1]]): j -= 1
        out.insert(j, i)
    return out

@contract('P17', 'written-columns', [HIT + 'write_builtin_formatted', HIT + '__write_formatted', HIT + 'open_filehandle_for_writing', HIT + 'file_header'], budget=100, bound='one hit, every value')
def written(V):
    """number of header lines, order of the columns, units and particle numbering of the format"""
    fmt = V.choice('format', FORMATS)
    V.arbitrary_table()
    h, q = make(V, 0, fmt)
    d = Disk(V)
    V.Hit().write_list_builtin_formatted([h], fmt, d.path)
    ls = d.lines()
    V.eq('lines', len(ls), HEADER[fmt] + 1)
    ws = ls[-1].split()
    V.eq('columns', V.len(ws), len(FORMAT[fmt]))
    for i, (k, u) in enumerate(FORMAT[fmt]):
        if k == '': continue
        v = pids(fmt)[q['pid']] if k == 'pid' else q['t'] * C if k == 'ct' else q[k]
        V.eq('column', V.number(ws[i]) * u, v, **({'tol': 1e-9, 'scale': abs(v) or 1.} if V.conc else {}))
    kept(V, [h], [q])

@contract('P17', 'read-columns', FNS[6:], budget=100, bound='two lines, every value')
def read(V):
    """a file in the format made by somebody else"""
    fmt, skip = V.choice('case', [(f, s) for f in FORMATS for s in (0, 1)])
    V.arbitrary_table()
    cmap = pids(fmt)
    d = Disk(V); want = []; parts = ['header line %d\n' % i if 'icool' in fmt else '#header\n' for i in range(HEADER[fmt])]
    if skip and 'g4' in fmt: parts += ['#comment\n', '\n']
    for i in range(2):
        q = {k: 0 for k in V.DOUBLES + V.INTS}; q['local_weight'] = 1.
        for j, (k, u) in enumerate(FORMAT[fmt]):
            if k == 'pid': q[k] = V.choice('pid%d' % i, sorted(cmap)) if V.conc else sorted(cmap)[(i + 2) % len(cmap)]; v = cmap[q[k]]
            elif k in V.INTS: v = q[k] = V.integer('%s%d' % (k, i), -99, 99)
            elif k == '': v = 0
            else:
                v = V.real('%s%d' % (k, i), -9, 9)
                if k == 'ct': q['t'] = v * u / C
                else: q[k] = v * u
            parts.append(V.text(v)); parts.append(' ' if j < len(FORMAT[fmt]) - 1 else '\n')
        want.append(q)
        if skip: parts.append('1 2 3 bad line\n')
    d.put(parts)
    r = V.Bunch().new_from_read_builtin(fmt, d.path)
    V.eq('hits', V.len(r), 2)
    for i in range(2): check_read(V, r[i], want[i], fmt)

@contract('P17', 'declared-unit', [BUN + 'setup_file', HIT + 'set_g4bl_unit'], budget=100, bound='two lines, every value')
def unit(V):
    fmt, unit = V.choice('case', [(f, u) for f in G4BL for u in ('cm', 'mm')])
    H = V.Hit(); V.later(lambda: H.set_g4bl_unit('mm'))
    if V.choice('before', ['mm', 'cm']) == 'cm': H.set_g4bl_unit('cm')
    n = len(FORMAT[fmt])
    d = Disk(V); vals = []
    parts = ['#BLTrackFile something\n#x y z Px Py Pz t PDGid EvNum TrkId Parent weight\n#%s %s %s MeV/c MeV/c MeV/c ns - - - - -\n' % (unit, unit, unit)]
    for i in range(2):
        v = [V.real('v%d_%d' % (i, j), -9, 9) for j in range(7)]; vals.append(v)
        for x in v: parts += [V.text(x), ' ']
        parts.append('-13 %d 2 0 1.0%s\n' % (i, ' 0 0 0' if n > 12 else ''))
    d.put(parts)
    r = V.Bunch().new_from_read_builtin(fmt, d.path)
    V.eq('hits', V.len(r), 2)
    for i in range(2):
        q = dict({k: 0 for k in V.DOUBLES + V.INTS}, local_weight=1., pid=-13, event_number=i, particle_number=2)
        for k, x in zip(('x', 'y', 'z', 'px', 'py', 'pz', 't'), vals[i]): q[k] = x
        check_read(V, r[i], q, fmt, 10. if unit == 'cm' else 1.)
    # written and read again
    hs = [r[0], r[1]]; before = [dict(V.snapshot(h), global_weight=h.get('global_weight')) for h in hs]
    r.hit_write_builtin(fmt, d.path)
    kept(V, hs, before)
    r2 = V.Bunch().new_from_read_builtin(fmt, d.path)
    V.eq('hits', V.len(r2), 2)
    for i in range(2): check_read(V, r2[i], before[i], fmt)

@contract('P17', 'refused', [HIT + 'write_builtin_formatted', HIT + 'write_list_builtin_formatted', BUN + 'hit_write_builtin', BUN + 'new_from_read_builtin'], budget=60)
def refused(V):
    what = V.choice('case', ['icool_for009', 'icool_for003', 'mars_1', 'unknown', 'root', 'single-maus', 'closed', 'read-unknown', 'no-file'])
    V.arbitrary_table()
    pid = {'mars_1': 1000070140, 'icool_for009': 22, 'icool_for003': 1000010020}.get(what, -13)
    h = V.hit('h', pid=pid)
    q = dict(V.snapshot(h), global_weight=h.get('global_weight'))
    b = V.Bunch()(); b.append(h)
    fh = V.fileobj('first\n')
    if what in ('icool_for009', 'icool_for003', 'mars_1'): V.raises('refused', Exception, lambda: h.write_builtin_formatted(what, fh))
    elif what == 'unknown': V.raises('refused', IOError, lambda: b.hit_write_builtin('no_such_format', '/nonexistent/file'))
    elif what == 'root': V.raises('refused', IOError, lambda: V.Hit().write_list_builtin_formatted([h], 'maus_root_virtual_hit', '/nonexistent/file'))
    elif what == 'single-maus': V.raises('refused', IOError, lambda: h.write_builtin_formatted('maus_json_virtual_hit', fh))
    elif what == 'closed':
        class Bad:
            dv_write = True
            def write(self, s): raise IOError("disc full")
        V.raises('refused', IOError, lambda: h.write_builtin_formatted('icool_for009', Bad()))
    elif what == 'read-unknown': V.raises('refused', IOError, lambda: V.Bunch().new_from_read_builtin('no_such_format', '/nonexistent/file'))
    elif V.conc: V.raises('refused', IOError, lambda: V.Bunch().new_from_read_builtin('icool_for009', '/nonexistent/file'))
    if what != 'closed':
        if not V.conc: fh.seek(0)
        V.eq('nothing-written', fh.readline(), 'first\n'); V.eq('nothing-written', fh.readline(), '')
    kept(V, [h], [q])

@contract('P17', 'grouped-by-station', [BUN + 'new_list_from_read_builtin', BUN + 'new_dict_from_read_builtin', BUN + 'hit_write_builtin_from_dict', BUN + 'split'], mode='bounded', runs=60, maxn=10)
def grouped(V):
    fmt = 'icool_for009'
    n = V.size('n', 1)
    hs = []
    b = V.Bunch()()
    for i in range(n):
        h, q = make(V, i, fmt); h['event_number'] = i; hs.append(h); b.append(h)
    d = Disk(V)
    st = [h['station'] for h in hs]
    parts = {}
    for h in hs: parts.setdefault(h['station'], V.Bunch()()).append(h)
    keys = sorted(parts)
    before = [dict(V.snapshot(h), global_weight=h.get('global_weight')) for h in hs]
    if V.choice('written', ['bunch', 'dictionary']) == 'bunch': b.hit_write_builtin(fmt, d.path)
    else:
        if V.choice('reversed', [0, 1]): parts = dict([(k, parts[k]) for k in keys[::-1]])
        V.Bunch().hit_write_builtin_from_dict(parts, fmt, d.path)
    kept(V, hs, before)
    li = V.Bunch().new_list_from_read_builtin(fmt, d.path)
    di = V.Bunch().new_dict_from_read_builtin(fmt, d.path)
    V.check('stations', sorted(di) == keys); V.eq('list', len(li), len(keys))
    for B, k in zip(li, keys):
        want = [i for i in range(n) if st[i] == k]
        V.eq('group', len(B), len(want)); V.eq('group', len(di[k]), len(want))
        for h, g, i in zip(B, di[k], want):
            check_read(V, h, before[i], fmt); check_read(V, g, before[i], fmt)
    odd = lambda h: h['event_number'] % 2 == 1
    r = V.Bunch().new_from_read_builtin(fmt, d.path, odd)
    V.eq('selected', len(r), n // 2)
    k = V.integer('most', 0, 12)
    V.eq('at-most', len(V.Bunch().new_from_read_builtin(fmt, d.path, None, k)), min(n, k))
