"""Check driver: python3-vt -m dv.run <PID> quick|thorough"""
import sys, os, json, subprocess, shutil, tempfile, time, hashlib, fnmatch
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DV_REPO', '/repo')
VENV = '/opt/venv/bin/python'
VT = shutil.which('python3-vt') or sys.executable
TRUSTED = ['z3 4.x and cvc5 (SMT back ends)', 'the exact rational normal-form and loop-rule checker in /verif/dv (symbolic executor over the AST of /repo, cross-checked on every run by replaying the same contracts on the real build)',
           'CPython 3.12 semantics of the constructs the executor implements']
ASSUME = ['machine floating point is treated as exact real arithmetic in proof obligations (the concrete replay compares with tolerance 1e-7)',
          'sequences built by the caller are not mutated concurrently', 'Python integers are unbounded; C++ int is assumed not to overflow except where stated']

def log(*a): print(*a, flush=True)

def build(scratch):
    dst = os.path.join(scratch, 'repo')
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns('.git', 'build', '*.so', '__pycache__', '*.pyc'))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', HOME=scratch)
    def one(k): return subprocess.run([VENV, os.path.join(VERIF, 'dv', 'buildext.py'), str(k), os.path.join(scratch, 'bt%d' % k)], cwd=dst, env=env, capture_output=True, text=True, timeout=600)
    with ThreadPoolExecutor(max_workers=3) as ex: ps = list(ex.map(one, range(3)))
    for p in ps:
        if p.returncode != 0:
            log('build of the working tree failed:\n' + p.stdout[-1500:] + p.stderr[-3000:]); sys.exit(2)
    for k in range(3, next((int(l.split()[1]) for l in ps[0].stdout.split('\n') if l.startswith('NEXT')), 3)): one(k)
    return dst

def names(repo, scratch):
    code = "from xboa.core import Hitcore; import json; print(json.dumps({'get': list(Hitcore.get_variables()), 'set': list(Hitcore.set_variables())}))"
    p = subprocess.run([VENV, '-B', '-c', code], cwd=repo, capture_output=True, text=True, timeout=60)
    f = os.path.join(scratch, 'names.json')
    try: json.loads(p.stdout.strip().split('\n')[-1]); open(f, 'w').write(p.stdout.strip().split('\n')[-1])
    except Exception:
        log('cannot import the built extension:\n' + p.stderr[-2000:])
        return None
    return f

def sym_one(repo, pid, i, namesf, scratch, budget):
    out = os.path.join(scratch, 'sym_%d.json' % i)
    env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        p = subprocess.run([VT, '-m', 'dv.symrun', repo, pid, str(i), namesf, out, str(budget)], cwd=scratch, env=env, capture_output=True, text=True, timeout=budget * 1.6 + 40)
        err = p.stderr[-1500:]
    except subprocess.TimeoutExpired: err = 'killed: time limit'
    if os.path.exists(out): return json.load(open(out))
    return {'done': False, 'reason': 'verifier process failed: ' + err, 'obligations': [], 'functions': [], 'paths': 0, 'completed': 0, 'solver_time': 0, 'queries': 0, 'backends': {}, 'assumed': [], 'notes': [], 'loops': [], 'invariants': 0}

def conc(repo, pid, scratch, seed, runs, budget, replay=None, tag='c'):
    out = os.path.join(scratch, 'conc_%s.json' % tag)
    env = dict(os.environ, PYTHONPATH=repo + ':' + VERIF, PYTHONDONTWRITEBYTECODE='1', DV_CONC_BUDGET=str(budget), PYTHONHASHSEED='0', HOME=scratch, MPLBACKEND='Agg', MALLOC_PERTURB_='165')
    cmd = [VENV, '-m', 'dv.concrun', pid, out, str(seed), str(runs)]
    if replay: cmd += ['--replay', replay]
    err = ''; crash = None
    try:
        p = subprocess.run(cmd, cwd=scratch, env=env, capture_output=True, text=True, timeout=budget + 200)
        err = p.stderr[-2000:]
        if p.returncode != 0: crash = 'exit status %d' % p.returncode
        if p.returncode < 0: crash = 'process ended by signal %d' % -p.returncode
    except subprocess.TimeoutExpired: crash = 'hang'
    res = json.load(open(out)) if os.path.exists(out) else {}
    prog = None
    if crash:
        try: prog = json.load(open(out + '.progress'))
        except Exception: prog = None
    return res, crash, prog, err

def load_findings():
    f = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else []

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='dv_%s_' % pid)
    try: code = check(pid, tier, seed, scratch, t0)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)

def check(pid, tier, seed, scratch, t0):
    sys.path.insert(0, VERIF)
    from dv import api
    import contracts.load as L
    L.load(pid)
    cs = api.REGISTRY.get(pid, [])
    if not cs: log('no contracts for', pid); return 2
    quick = tier == 'quick'
    repo = build(scratch)
    namesf = names(repo, scratch)
    if namesf is None: return 2
    # ---- deductive phase
    res = {}
    scale = 1.0 if quick else 4.0
    todo = [(i, c) for i, c in enumerate(cs) if c.opts.get('mode', 'proof') == 'proof']
    with ThreadPoolExecutor(max_workers=7) as ex:
        fut = {ex.submit(sym_one if c.opts.get('lang') != 'cxx' else cxx_one, repo, pid, i, namesf, scratch, c.opts.get('budget', 90) * scale): (i, c)
               for i, c in sorted(todo, key=lambda t: -t[1].opts.get('budget', 90))}
        for f in as_completed(fut): res[fut[f][1].name] = f.result()
    # ---- replay of countermodels + conformance of the contracts on the real build
    jobs = []
    undecided = []
    for c in cs:
        r = res.get(c.name)
        if r is None: continue
        for o in r['obligations']:
            if o['status'] == 'refuted' and o['model'] is not None:
                jobs.append({'contract': c.name, 'inputs': o['model'], 'oblig': o['name'], 'seed': seed})
        if not r['done'] or any(o['status'] != 'discharged' for o in r['obligations']): undecided.append(c.name)
    rf = os.path.join(scratch, 'replay.json'); json.dump(jobs, open(rf, 'w'))
    runs = 60 if quick else 1500
    if undecided: runs *= 4
    cres, crash, prog, err = conc(repo, pid, scratch, seed, runs, (90 if quick else 600) * (2 if undecided else 1), rf if jobs else None)
    findings = [f for f in load_findings() if f.get('property') == pid and f.get('status') == 'known']
    viol = []      # (contract, oblig, text, inputs, suffix)
    known = {}
    def is_known(cn, ob, msg):
        for f in findings:
            if f['contract'] == cn and f['obligation'] == ob and (not f.get('match') or f['match'] in (msg or '')): return f
        return None
    for cn, r in cres.items():
        for ob, fl in r['fails'].items():
            f = fl[0]
            k = is_known(cn, ob, f['msg'])
            if k: known[k['what']] = 1; continue
            viol.append((cn, ob, f['msg'], f['inputs'], '', f.get('seed')))
    if crash:
        cn = prog['contract'] if prog else None
        if cn and not any(v[0] == cn for v in viol):
            viol.append((cn, 'process-' + ('hang' if crash == 'hang' else 'crash'), '%s; %s' % (crash, err[-600:]), prog.get('inputs') if prog else None, '', prog.get('seed') if prog else None))
        elif not prog:
            log('the evaluator process failed: %s\n%s' % (crash, err)); return 2
    bounded = []; proved = []
    for c in cs:
        r = res.get(c.name)
        if r is None: bounded.append((c.name, 'declared bounded')); continue
        bad = [o for o in r['obligations'] if o['status'] != 'discharged']
        if r['done'] and not bad and r['obligations']:
            if c.opts.get('bound'): bounded.append((c.name, 'discharged for all values, sizes bounded: ' + c.opts['bound']))
            else: proved.append(c.name)
            continue
        # a refutation counts only when every loop invariant it rests on was established: not after an abandoned exploration of loops,
        # nor when an exception ended some paths before their loop bodies were checked
        firm = (r['done'] or not r.get('loops')) and not any(o['name'] == 'no-exception' and o['tainted'] and o['status'] == 'refuted' for o in bad)
        real_ref = [o for o in bad if firm and o['status'] == 'refuted' and not o['tainted']]
        if real_ref and not any(v[0] == c.name for v in viol):
            unk = [o for o in real_ref if not is_known(c.name, o['name'], o['info'])]
            for o in real_ref:
                k = is_known(c.name, o['name'], o['info'])
                if k: known[k['what']] = 1
            if unk:
                o = unk[0]
                viol.append((c.name, o['name'], 'refuted by %s: %s' % (o['backend'], o['info']), o['model'], ' no-failing-input-found', None))
                continue
        bounded.append((c.name, r['reason'] or 'undischarged: ' + '; '.join('%s %s%s [%s]' % (o['name'], o['status'], '(tainted)' if o['tainted'] else '', o['info'][:200]) for o in bad)[:600]))
    nconc = sum(r['ok'] for r in cres.values())
    full = {c.name for c in cs if not c.opts.get('bound')}      # obligations discharged for bounded sizes are never counted as proved
    count = lambda f: (sum(len(r['obligations']) for n, r in res.items() if f(n)), sum(1 for n, r in res.items() for o in r['obligations'] if f(n) and o['status'] == 'discharged'))
    (nob, ndis), (bob, bdis) = count(lambda n: n in full), count(lambda n: n not in full)
    starved = [c.name for c in cs if not cres.get(c.name, {}).get('ok') and not cres.get(c.name, {}).get('fails') and not c.opts.get('sym_only')]
    # ---- evidence
    level = level_of(pid)
    for b, why in bounded: log('bounded (not proved for all sizes): %s: %s' % (b, why))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'coverage': {
            'obligations': nob, 'discharged': ndis, 'bounded_size_obligations': bob, 'bounded_size_discharged': bdis,
            'checker_cmd': 'python3-vt -m dv.run %s %s' % (pid, tier), 'trusted_base': TRUSTED,
            'contracts': {c.name: {'functions': c.fns, 'status': 'proved' if c.name in proved else 'bounded', 'obligations': {o['name']: '%s/%s x%d %.2fs' % (o['status'], o['backend'], o['n'], o['time']) for o in res.get(c.name, {}).get('obligations', [])},
                                    'paths': res.get(c.name, {}).get('completed', 0), 'loops_cut': res.get(c.name, {}).get('loops', []), 'invariants_checked': res.get(c.name, {}).get('invariants', 0),
                                    'reason_not_proved': dict(bounded).get(c.name)} for c in cs},
            'functions_under_contract': sorted({f for c in cs for f in c.fns}),
            'functions_executed_by_verifier': sorted({f for r in res.values() for f in r.get('functions', [])}),
            'back_ends': merge([r.get('backends', {}) for r in res.values()]), 'solver_time_s': round(sum(r.get('solver_time', 0) for r in res.values()), 2), 'solver_queries': sum(r.get('queries', 0) for r in res.values()),
            'evaluations': sum(r['runs'] for r in cres.values()), 'distinct_nontrivial': sum(r['distinct'] for r in cres.values()),
            'rule': 'contract replays on the real build with generated inputs satisfying the precondition; distinct by input hash, non-trivial when at least one postcondition was evaluated',
            'samples': [s for r in cres.values() for s in r['samples'][:1]][:3],
            'explanation': 'contracts discharged over the rewritten AST of /repo; contracts listed with status bounded are decided only by the concrete replays counted under evaluations'},
          'assumptions': ASSUME + sorted({a for r in res.values() for a in r.get('assumed', [])})}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    log('%s %s: contracts %d (proved %d, bounded %d), obligations %d discharged %d (bounded sizes %d/%d), concrete replays %d, %.1fs' % (pid, tier, len(cs), len(proved), len(bounded), nob, ndis, bdis, bob, nconc, time.time() - t0))
    for k in known: log('KNOWN-FINDING: property=%s %s' % (pid, k))
    if viol:
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        seen = set()
        viol.sort(key=lambda v: (v[4] != '',))
        for j, (cn, ob, msg, inputs, suf, sd) in enumerate(viol[:6]):
            f = os.path.join(d, '%s_%d.json' % (pid, j))
            json.dump({'property': pid, 'contract': cn, 'obligation': ob, 'message': msg, 'inputs': inputs, 'seed': sd,
                       'functions': [c.fns for c in cs if c.name == cn], 'verifier': [o for o in res.get(cn, {}).get('obligations', []) if o['status'] != 'discharged'],
                       'replay_cmd': 'python3-vt -m dv.replay ' + f}, open(f, 'w'), indent=1, default=str)
            log('  %s / %s: %s' % (cn, ob, msg))
            log('VIOLATION property=%s replay=%s%s' % (pid, f, suf))
        return 1
    if starved: log('no concrete evaluation reached a postcondition for: ' + ', '.join(starved)); return 3
    if nob + bob == 0 and nconc == 0: log('nothing was checked'); return 3
    return 0

def cxx_one(repo, pid, i, namesf, scratch, budget):
    return sym_one(repo, pid, i, namesf, scratch, budget)

def merge(ds):
    r = {}
    for d in ds:
        for k, v in d.items(): r[k] = r.get(k, 0) + v
    return r

def level_of(pid):
    try:
        m = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == pid: return c['level']
    except Exception: pass
    return 'proof'

if __name__ == '__main__': main()
