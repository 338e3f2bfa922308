"""Child process (run with the project's interpreter against the scratch build): evaluates contracts on concrete inputs.

argv: PID OUT.json SEED RUNS [--replay FILE.json]"""
import sys, os, json, random, time, signal, traceback, importlib, io, contextlib, hashlib

class Hang(BaseException): pass

def jsonable(x):
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool, type(None))): return x
    return repr(x)

def run_one(c, inputs, seed, scratch):
    from dv import api, concv
    rng = random.Random(seed)
    V = concv.ConcV(rng, inputs, scratch, maxn=c.opts.get('maxn', 5))
    import xboa.core
    xboa.core.Hitcore.set_weight_context(xboa.core.WeightContext())     # each run starts from a new weight table
    def alarm(*a): raise Hang()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(c.opts.get('alarm', 20))
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            c.fn(V)
        return ('ok', None, None, V)
    except api.Skip: return ('skip', None, None, V)
    except api.Violated as ex: return ('fail', ex.oblig, ex.msg, V)
    except Hang: return ('fail', 'termination', 'did not finish within the time limit', V)
    except Exception as ex:
        return ('fail', 'no-exception', '%s: %s' % (type(ex).__name__, str(ex)[:300]) + ' @ ' + ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(ex.__traceback__)[::-1][:4]), V)
    finally:
        signal.alarm(0)
        V.cleanup()

def main():
    pid, out, seed, runs = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    scratch = os.path.dirname(os.path.abspath(out))
    from dv import api
    import contracts.load as L
    L.load(pid)
    import warnings; warnings.simplefilter('ignore')
    import numpy; numpy.seterr(all='ignore')
    only = None; prog = open(out + '.progress', 'w')
    jobs = []
    if len(sys.argv) > 5:
        for r in json.load(open(sys.argv[6])):
            jobs.append((r['contract'], r['inputs'], r.get('seed', seed)))
    res = {}
    byname = {c.name: c for c in api.REGISTRY.get(pid, [])}
    def note(name, inputs, s):
        prog.seek(0); prog.truncate(); prog.write(json.dumps({'contract': name, 'inputs': jsonable(inputs), 'seed': s})); prog.flush()
    def save():
        with open(out + '.tmp', 'w') as f: json.dump(res, f)
        os.rename(out + '.tmp', out)
    def record(name, st, ob, msg, V, s, replayed):
        r = res.setdefault(name, {'runs': 0, 'ok': 0, 'skip': 0, 'fails': {}, 'checks': 0, 'samples': [], 'distinct': 0})
        r['runs'] += 1; r['checks'] += V.checked
        if st == 'ok':
            r['ok'] += 1
            if len(r['samples']) < 2: r['samples'].append(jsonable(V.used))
        elif st == 'skip': r['skip'] += 1
        else:
            r['fails'].setdefault(ob, []) if len(r['fails']) < 12 else None
            if ob in r['fails'] and len(r['fails'][ob]) < 3: r['fails'][ob].append({'inputs': jsonable(V.used), 'msg': msg, 'seed': s, 'from_model': replayed})
    seen = {}
    if jobs:
        for name, inputs, s in jobs:
            if name not in byname: continue
            note(name, inputs, s)
            for t in range(4):
                st, ob, msg, V = run_one(byname[name], inputs, s + t, scratch)
                record(name, st, ob, msg, V, s + t, True)
                if st == 'fail': break
        save()
    t_end = time.time() + float(os.environ.get('DV_CONC_BUDGET', '60'))
    cs = list(byname.values())
    for j, c in enumerate(cs):
        n = int(runs * c.opts.get('runs', 1.0)); hs = set()
        tstop = time.time() + max(2.0, (t_end - time.time()) / (len(cs) - j))
        for i in range(n):
            if time.time() > tstop: break
            s = int(hashlib.sha256(('%s/%d/%d' % (c.name, seed, i)).encode()).hexdigest()[:12], 16)
            note(c.name, None, s)
            st, ob, msg, V = run_one(c, None, s, scratch)
            record(c.name, st, ob, msg, V, s, False)
            if st == 'ok' and V.checked: hs.add(hash(json.dumps(jsonable(V.used), sort_keys=True)))
        res.setdefault(c.name, {'runs': 0, 'ok': 0, 'skip': 0, 'fails': {}, 'checks': 0, 'samples': [], 'distinct': 0})['distinct'] = len(hs)
        save()
    save()
if __name__ == '__main__': main()
