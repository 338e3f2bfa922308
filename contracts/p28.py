"""P28 tracking"""
from dv.api import contract
MT = 'xboa/tracking/_matrix_tracking.py:MatrixTracking.'
TB = 'xboa/tracking/_tracking_base.py:TrackingBase.'
MU = 'xboa/tracking/_multitrack.py:MultiTrack.'
KEYS = ['x', 'px', 'y', 'py', 't', 'energy']

def mat(V, name, r, c): return [[V.real('%s_%d_%d' % (name, i, j), -3, 3) for j in range(c)] for i in range(r)]

@contract('P28', 'track-one', [MT + 'track_one'], budget=200, tmo=20, runs=0.5)
def one(V):
    T = V.mod('xboa.tracking').MatrixTracking
    n = V.choice('matrices', [0, 1, 2, 3] if V.conc else [0, 1, 2])
    if V.conc: h = V.hit('h')
    else: h = V.hit('h', only=['x', 'px', 'y', 'py', 'pz', 't', 'energy', 'mass', 'z', 'bx', 'charge', 'station', 'pid', 'spill', 'event_number', 'particle_number', 'local_weight'], arbitrary_table=True)
    if V.conc:
        for k in ('x', 'px', 'y', 'py', 'pz', 't', 'energy', 'mass'): V.assume(abs(V.raw(h, k)) < 1e5)
    ms = [mat(V, 'm%d' % i, 6, 6) for i in range(n)]; offs = [mat(V, 'o%d' % i, 1, 6) for i in range(n)]; ref = mat(V, 'r', 1, 6)
    t = T([V.matrix(m) for m in ms], [V.matrix(o) for o in offs], V.matrix(ref))
    old = V.snapshot(h); ids = (old['spill'], old['event_number'], old['particle_number']); gw = V.table(*ids)
    called = []
    if not V.conc:
        def ghost(self, var):      # contract P03: pz is put on the mass shell, nothing else changes
            V.check('mass-shell-through-pz', var == 'pz')
            called.append((self, V.snapshot(self))); return True
        V.patch(V.Hit(), 'mass_shell_condition', ghost)
        V.trust("Hit.mass_shell_condition('pz') changes pz only and puts the hit on the mass shell (contracts of P03)")
    out = t.track_one(h)
    V.eq('one-hit-per-matrix', V.len(out), n + 1)
    new = V.snapshot(h)
    for k in old: V.eq('input-kept', new[k], old[k])
    V.eq('weight-kept', V.table(*ids), gw)
    for i in range(n + 1):
        V.check('new-hits', out[i] is not h and all([out[i] is not out[j] for j in range(i)]))
        s = V.snapshot(out[i])
        if i == 0: want = {}
        else:
            v = [old[k] - ref[0][j] for j, k in enumerate(KEYS)]
            want = {k: sum([ms[i - 1][j][l] * v[l] for l in range(6)]) + offs[i - 1][0][j] for j, k in enumerate(KEYS)}
        sc = 1e-300 + sum([abs(x) for x in want.values()]) if V.conc and want else None
        for k in s:
            if k == 'pz' and i > 0: continue
            if k in want: V.eq('coordinates', s[k], want[k], scale=sc)
            else: V.eq('rest-copied', s[k], old[k])
        V.eq('global-weight', out[i]['global_weight'], gw)
        if i > 0 and not V.conc:
            V.check('mass-shell', len(called) == n and called[i - 1][0] is out[i])
            for k in KEYS: V.eq('mass-shell-last', s[k], called[i - 1][1][k])
        elif i > 0:
            p2 = s['energy'] * s['energy'] - s['mass'] * s['mass'] - s['px'] * s['px'] - s['py'] * s['py']
            if V.conc: V.assume(abs(p2) > 1e-9 * (1. + s['energy'] ** 2 + s['mass'] ** 2 + s['px'] ** 2 + s['py'] ** 2))
            if bool(p2 > 2e-6): V.eq('mass-shell', s['pz'] * s['pz'], p2, scale=s['energy'] ** 2 + s['mass'] ** 2 if V.conc else None)
            elif bool(p2 < 0): V.eq('mass-shell', s['pz'], 0.)

@contract('P28', 'track-many', [TB + 'track_many'], budget=100)
def many(V):
    TB_ = V.mod('xboa.tracking').TrackingBase
    n = V.size('n')
    if V.conc:
        import numpy
        T = V.mod('xboa.tracking').MatrixTracking
        t = T([V.matrix(mat(V, 'm', 6, 6))], [V.matrix(mat(V, 'o', 1, 6))], V.matrix(mat(V, 'r', 1, 6)))
        hits = [V.hit('h%d' % i) for i in range(n)]
        want = [t.track_one(h) for h in hits]; got = t.track_many(hits)
        V.eq('one-result-per-particle', len(got), n)
        for a, b in zip(want, got): V.check('same-as-one-by-one', len(a) == len(b) and all([V._eq(V.snapshot(x), V.snapshot(y), 1e-12) or any([v != v for v in V.snapshot(x).values()]) for x, y in zip(a, b)]))
        V.check('last', t.last is got)
        return
    f = V.ufun('tracked', 1)
    hits = V.seq('hits', n); hf = V.fn(hits)
    t = TB_()
    t.track_one = lambda h: f(h)
    out = t.track_many(hits)
    V.seq_eq('one-result-per-particle', out, n, lambda i: f(hf(i)))
    V.check('last', t.last is out)

@contract('P28', 'refused', [MT + '__init__'])
def refused(V):
    T = V.mod('xboa.tracking').MatrixTracking
    M = lambda r, c: V.matrix([[0.] * c for _ in range(r)])
    A = lambda r, c: V.array([[0.] * c for _ in range(r)])
    case = V.choice('case', range(8))
    exc, args = [(IndexError, ([M(6, 6)], [], M(1, 6))), (IndexError, ([], [M(1, 6)], M(1, 6))), (TypeError, ([M(6, 5)], [M(1, 6)], M(1, 6))), (TypeError, ([M(6, 6)], [M(6, 1)], M(1, 6))),
        (TypeError, ([M(6, 6)], [M(1, 6)], M(1, 5))), (TypeError, ([A(6, 6)], [M(1, 6)], M(1, 6))), (TypeError, ([M(6, 6)], [A(1, 6)], M(1, 6))), (TypeError, ([M(6, 6)], [M(1, 6)], A(1, 6)))][case]
    V.raises('refused', exc, T, *args)

class Job(object):
    def __init__(self, log): self.log = log; self.hits = None; self.dirs = 0; self.started = 0
    def __deepcopy__(self, memo):
        j = Job(self.log); return j
    def new_out_dir(self): self.dirs += 1
    def set_hit_list(self, l): self.hits = l
    def start(self): self.started += 1; self.log.append(self)
    def is_alive(self): return False
    def get_return_value(self): return self.hits
    pid = 1; exitcode = 0

@contract('P28', 'share-out', [MU + '__init__', MU + 'track_many_async', MU + 'track_many', MU + 'get_return_value'], budget=200, tmo=20, bound='every number of particles; up to 5 processes')
def share(V):
    K = V.mod('xboa.tracking').MultiTrack
    procs = V.choice('processes', [1, 2, 3, 4, 5, 7] if V.conc else [1, 2, 3, 4, 5])
    n = V.integer('n', 0, 30 if V.conc else None); hits = V.seq('hits', n); f = V.fn(hits)
    if V.conc: hits = list(hits)
    log = []; job = Job(log)
    t = K(procs, job)
    jobs = t.track_many_async(hits)
    V.eq('number-of-processes', [V.len(jobs), len(log), V.len(t.job_list)], [procs] * 3)
    q = V.floor(n / procs) if V.conc else n // procs
    r = n - q * procs
    start = 0
    for i in range(procs):
        j = log[i]
        V.check('own-job', j is not job and j.started == 1 and j.dirs == 1 and jobs[i] is j)
        m = V.len(j.hits)
        V.check('fair-share', V.and_(m >= q, m <= q + 1))
        V.seq_eq('share', j.hits, m, lambda k, s=start: f(s + k))
        start = start + m
    V.eq('every-particle-once', start, n)
    V.seq_eq('caller-list-kept', hits, n, f)
    V.seq_eq('collected', t.get_return_value(), n, f)
    V.seq_eq('collected-last', t.last, n, f)

@contract('P28', 'several-processes', [MU + 'track_many', 'xboa/tracking/tracking_process/_tracking_process.py:TrackingProcess.set_hit_list', 'xboa/tracking/tracking_process/_tracking_process.py:TrackingProcess.get_return_value',
          'xboa/tracking/tracking_process/xboa_tracking_process.py:main'], mode='bounded', runs=0.05)
def processes(V):
    """the real process class, run in this process through the real pickle files"""
    import sys, os, copy
    K = V.mod('xboa.tracking').MultiTrack; T = V.mod('xboa.tracking').MatrixTracking
    P = V.mod('xboa.tracking.tracking_process').TrackingProcess
    main = V.mod('xboa.tracking.tracking_process.xboa_tracking_process').main
    class Here(P):
        def __init__(self, tracking): P.__init__(self, tracking, os.path.join(V.scratch, 'tracking'))
        def start(self):
            argv = sys.argv; sys.argv = ['x', '--out-dir', self.out_dir]
            try: main()
            finally: sys.argv = argv
            self.exitcode = 0; self.pid = 1
        def is_alive(self): return False
    import contracts.p28 as me
    me.Here = Here; Here.__qualname__ = 'Here'; Here.__module__ = 'contracts.p28'
    n = V.integer('n', 0, 9); hits = [V.hit('h%d' % i) for i in range(n)]
    t = T([V.matrix(mat(V, 'm', 6, 6))], [V.matrix(mat(V, 'o', 1, 6))], V.matrix(mat(V, 'r', 1, 6)))
    want = t.track_many(hits)
    got = K(V.choice('processes', [1, 2, 3, 4]), Here(t)).track_many(hits)
    V.eq('one-result-per-particle', len(got), n)
    for a, b in zip(want, got):
        V.eq('hits-per-particle', len(b), len(a))
        for x, y in zip(a, b): V.check('same-hits', x == y or any([v != v for v in V.snapshot(x).values()]))
