"""P26 peak finders"""
from dv.api import contract
UD = 'xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py:UphillDownhillPeakFinder.'
WN = 'xboa/algorithms/peak_finder/_window_peak_finder.py:WindowPeakFinder.'

@contract('P26', 'slope', [UD + 'find_peaks', UD + '_get_derivative'], budget=120)
def slope(V):
    K = V.mod('xboa.algorithms.peak_finder').UphillDownhillPeakFinder
    n = V.size('n'); d = V.seq('d', n); f = V.fn(d)
    pf = K.__new__(K)
    ispeak = lambda i: V.and_(f(i + 1) > f(i), f(i + 2) < f(i + 1))
    V.listhint('peaks', lambda i: i + 1, ispeak)
    m = n - 2 if bool(n >= 2) else 0
    r = pf.find_peaks(d)
    V.filter_eq('peaks', r, m, lambda i: i + 1, ispeak)
    V.seq_eq('data-kept', d, n, f)

@contract('P26', 'slope-derivative', [UD + '_get_derivative'])
def deriv(V):
    K = V.mod('xboa.algorithms.peak_finder').UphillDownhillPeakFinder
    n = V.size('n'); d = V.seq('d', n); f = V.fn(d)
    r = K.__new__(K)._get_derivative(d)
    V.seq_eq('differences', r, n - 1 if bool(n >= 1) else 0, lambda i: f(i + 1) - f(i))

@contract('P26', 'window-settings', [WN + '__init__'])
def ws(V):
    K = V.mod('xboa.algorithms.peak_finder').WindowPeakFinder
    w = V.integer('w', 1); s = V.integer('s', 1); t = V.real('t')
    pf = K(w, t, s)
    V.eq('window', pf.window_size, w); V.eq('step', pf.window_step, s); V.eq('threshold', pf.threshold, t)

def spec(V, d, w, step, thr, quiet):
    """indices that are the first maximum of some visited window, not on an inner edge, above threshold"""
    n = len(d); w = min(w, n); out = []
    for i in range(0, n - w + 1, step):
        win = d[i:i + w]
        m = win[0]; mi = 0
        for j in range(1, w):
            if bool(win[j] > m): m = win[j]; mi = j
        if (i != 0 and mi == 0) or (i != n - w and mi == w - 1): continue
        if i + mi in out: continue
        if not quiet:
            mean = sum(win) / float(w)
            q = sum([x * x for x in win]) - mean * mean
            sigma = V.sqrt(q) / w
            if not bool(m - mean > sigma * thr): continue
        out.append(i + mi)
    return out

@contract('P26', 'window', [WN + 'find_peaks'], budget=170, paths=6000, bound='data of up to 5 values (4 with an active threshold), windows and steps up to 5')
def window(V):
    K = V.mod('xboa.algorithms.peak_finder').WindowPeakFinder
    if V.conc:
        n = V.integer('n', 1, 14); w = V.integer('w', 1, 9); step = V.integer('step', 1, 4)
        quiet = V.choice('quiet', [True, False]); thr = V.real('thr', -1, 0.9) if quiet else V.real('thr', 1, 2.5)
        d = [float(x) for x in V.seq('d', n, -6, 6, kind='I')] if V.choice('ties', [0, 1]) else V.seq('d', n, -5, 5)
    else:
        n, w, step, quiet = V.choice('case', [(n, w, s, q) for q in (True, False) for n in (range(1, 6) if q else range(1, 4)) for w in (1, 2, 3, 4, 9) for s in (1, 2, 3) if w <= n + 1 or w == 9 and s == 1])
        thr = V.real('thr', hi=1, hi_open=True) if quiet else V.real('thr', 1)
        d = V.vec('d', n)
    keep = list(d)
    arg = V.list(d)
    if not quiet and V.conc:
        # keep away from the rounding of the threshold comparison
        for i in range(0, n - min(w, n) + 1):
            win = d[i:i + min(w, n)]; mean = sum(win) / len(win)
            V.assume(abs((max(win) - mean) - thr * (sum([x * x for x in win]) - mean ** 2) ** .5 / len(win)) > 1e-9)
    r = K(w, thr, step).find_peaks(arg)
    want = spec(V, keep, w, step, thr, quiet)
    V.eq('peaks', [x for x in r], want)
    V.eq('data-kept', [x for x in arg], keep)
