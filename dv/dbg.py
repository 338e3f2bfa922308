"""developer aid: run one contract (or all of a property) symbolically on DV_REPO. usage: python3-vt -m dv.dbg PID [substr]"""
import sys, json, os, time
from dv import api, symrun
import contracts.load as L
pid = sys.argv[1]; sub = sys.argv[2] if len(sys.argv) > 2 else ''
L.load(pid)
repo = os.environ.get('DV_REPO', '/tmp/w/repo')
sys.setrecursionlimit(6000)
names = json.load(open('/tmp/w/names.json'))
for c in api.REGISTRY[pid]:
    if sub not in c.name or c.opts.get('mode', 'proof') != 'proof': continue
    t = time.time()
    r = symrun.run(repo, c, names, c.opts.get('budget', 90), verbose=bool(os.environ.get('VB')))
    print('==', c.name, 'done' if r['done'] else 'NOT DONE', r['reason'] or '', 'paths %d/%d' % (r['completed'], r['paths']), 'restarts', r['restarts'], 'inv', r['invariants'], 'q', r['queries'], 'solver %.1f' % r['solver_time'], 'wall %.1f' % (time.time() - t), r['backends'])
    for o in r['obligations']:
        if o['status'] != 'discharged' or os.environ.get('ALL'): print('   ', o['name'], o['status'], o['backend'], 'TAINT' if o['tainted'] else '', 'n=%d %.2fs' % (o['n'], o['time']), o['info'][:500] if o['status']!='discharged' else '', str(o['model'])[:400] if o['status'] == 'refuted' else '')
    if r['notes']: print('    notes', r['notes'])
    if r['loops']: print('    loops', r['loops'])
