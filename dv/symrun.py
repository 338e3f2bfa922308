"""Child process: discharge one contract.  argv: REPO PID INDEX NAMES.json OUT.json BUDGET"""
import sys, os, json, time, traceback, resource

def main():
    repo, pid, idx, namesf, out, budget = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5], float(sys.argv[6])
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(6000)
    t0 = time.time()
    from dv import core, api
    import contracts.load as L
    L.load(pid)
    c = api.REGISTRY[pid][idx]
    res = run(repo, c, json.load(open(namesf)), budget)
    res['wall'] = time.time() - t0
    with open(out + '.tmp', 'w') as f: json.dump(res, f, default=str)
    os.rename(out + '.tmp', out)

def run(repo, c, names, budget, verbose=False):
    from dv import core, symv, pyrt, coremodel
    coremodel.NAMES.update(names)
    front = pyrt.Front(repo)
    funcs = set()
    mon = sys.monitoring; TID = 4
    try: mon.use_tool_id(TID, 'dv')
    except ValueError: pass
    pre = repo.rstrip('/') + '/'
    def start(code, off):
        if code.co_filename.startswith(pre) and not code.co_name.startswith('<'):
            funcs.add('%s:%s' % (code.co_filename[len(pre):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(TID, mon.events.PY_START, start)
    mon.set_events(TID, mon.events.PY_START)
    res = {'contract': c.name, 'fns': c.fns, 'reason': None, 'obligations': []}
    eng = core.Engine(c.name, tmo=int(c.opts.get('tmo', 4000)), max_paths=c.opts.get('paths', 1500), budget_s=budget)
    eng.unroll = c.opts.get('unroll', 40)
    eng.trace = []
    def body(E):
        E.while_cut = tuple(c.opts.get('while_cut', ()))
        E.unroll = c.opts.get('unroll', 40)
        E.split_abs = c.opts.get('split_abs', False)
        front.new_path()
        front.load('xboa.core')
        V = symv.SymV(front, E)
        try:
            c.fn(V)
        except Exception as ex:
            if pyrt.artefact(ex): raise core.Unsupported("outside the modelled values: %s" % ex).with_traceback(ex.__traceback__)
            tb = traceback.extract_tb(ex.__traceback__)
            where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:6])
            E.tainted = True
            if verbose: traceback.print_exc()
            E.check('no-exception', False, '%s: %s @ %s' % (type(ex).__name__, str(ex)[:300], where))
    try:
        eng.explore(body)
        res['done'] = True
    except core.Unsupported as ex:
        res['done'] = False
        tb = traceback.extract_tb(ex.__traceback__)
        res['reason'] = 'unsupported: %s @ %s' % (ex, ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:8]))
        if verbose: traceback.print_exc()
    except core.Budget as ex: res['done'] = False; res['reason'] = 'budget: %s' % ex
    except core.Restart as ex: res['done'] = False; res['reason'] = 'restart escaped'
    except core.PathEnd as ex: res['done'] = False; res['reason'] = 'pathend escaped'
    except RecursionError as ex: res['done'] = False; res['reason'] = 'recursion'
    except MemoryError: res['done'] = False; res['reason'] = 'memory'
    except Exception as ex:
        res['done'] = False; res['reason'] = 'internal: ' + ''.join(traceback.format_exception(ex))[-1500:]
    res['obligations'] = [dict(name=o.name, status=o.status, backend=o.backend, time=round(o.time, 3), n=o.n, model=o.model, tainted=o.tainted, info=str(o.info)[:1500]) for o in eng.obl.values()]
    if res['done'] and not eng.completed:
        res['done'] = False; res['reason'] = 'vacuous: no complete path'
    res.update(paths=eng.paths, completed=eng.completed, solver_time=round(eng.solver_time, 2), queries=eng.queries, backends=eng.backends,
               loops=sorted(eng.loops), invariants=eng.inv_checked, restarts=eng.restarts, notes=sorted(eng.notes), assumed=sorted(eng.assumed), functions=sorted(funcs))
    return res

if __name__ == '__main__': main()
