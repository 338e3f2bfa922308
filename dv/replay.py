"""python3-vt -m dv.replay FILE: runs one reported violation again against /repo's current tree.

The inputs of the file are given to the real build; where the file has none (no failing input was found) the obligations of
the contract are generated and discharged again.  Exit 1 when the violation is seen again, 0 when it is not."""
import sys, os, json, tempfile, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def main():
    sys.path.insert(0, VERIF)
    d = json.load(open(sys.argv[1])); pid = d['property']
    from dv import run, api
    import contracts.load as L
    L.load(pid)
    scratch = tempfile.mkdtemp(prefix='dv_replay_')
    try:
        repo = run.build(scratch)
        again = False
        if d.get('inputs') or d.get('seed') is not None:
            f = os.path.join(scratch, 'jobs.json')
            json.dump([{'contract': d['contract'], 'inputs': d.get('inputs') or None, 'seed': d.get('seed') or 1}], open(f, 'w'))
            res, crash, prog, err = run.conc(repo, pid, scratch, 1, 0, 60, f)
            for ob, fl in res.get(d['contract'], {}).get('fails', {}).items():
                print('%s / %s: %s' % (d['contract'], ob, fl[0]['msg'])); print('inputs: %s' % json.dumps(fl[0]['inputs'])[:4000]); again = True
            if crash: print('%s: %s\n%s' % (d['contract'], crash, err[-1500:])); again = True
        if not again:
            namesf = run.names(repo, scratch)
            for i, c in enumerate(api.REGISTRY[pid]):
                if c.name != d['contract'] or c.opts.get('mode', 'proof') != 'proof': continue
                r = run.sym_one(repo, pid, i, namesf, scratch, c.opts.get('budget', 90))
                for o in r['obligations']:
                    if o['status'] != 'discharged': print('%s / %s: %s by %s' % (c.name, o['name'], o['status'], o['backend'])); print(str(o.get('goal', ''))[:2000]); again = again or o['status'] == 'refuted'
                if not r['done']: print('%s: %s' % (c.name, r['reason']))
        print('seen again' if again else 'not seen on this tree')
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(1 if again else 0)
if __name__ == '__main__': main()
