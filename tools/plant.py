"""plant one bug: python3 tools/plant.py SPEC.py  (SPEC defines id, prop, edits=[(file, old, new)], needs, breaks, demo)
Builds the patch from a scratch copy of /repo's HEAD, runs the demonstration on both trees, runs the stable tests on the changed one, and
writes /verif/seeded/<id>/ only when all of that is confirmed."""
import sys, os, subprocess, json, shutil, runpy
def sh(c, cwd=None, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t); return p.returncode, p.stdout
W = '/tmp/seedw'
DEMO = """#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$PYTHONPATH" MPLBACKEND=Agg
exec timeout 250 /opt/venv/bin/python -W ignore "$d/demo.py"
"""
def plant(s):
    d = '/verif/seeded/' + s['id']
    cxx = any(f.endswith(('.cc', '.hh', '.hpp')) for f, o, n in s['edits'])
    if os.path.exists(W): shutil.rmtree(W)
    sh('cp -a /repo ' + W)
    tmp = '/tmp/seedd'
    if os.path.exists(tmp): shutil.rmtree(tmp)
    os.makedirs(tmp)
    open(tmp + '/demo.sh', 'w').write(DEMO); os.chmod(tmp + '/demo.sh', 0o755); open(tmp + '/demo.py', 'w').write(s['demo'])
    # the demo runs on /repo itself (unchanged) first
    rc, out = sh('bash %s/demo.sh' % tmp, '/repo')
    if rc != 0: return 'demo fails on the unchanged tree: ' + out[-600:]
    for f, o, n in s['edits']:
        p = W + '/' + f; t = open(p).read()
        if t.count(o) != 1: return 'old text occurs %d times in %s: %r' % (t.count(o), f, o)
        open(p, 'w').write(t.replace(o, n))
    rc, diff = sh('git diff', W)
    open(tmp + '/patch.diff', 'w').write(diff)
    assert sh('git status --porcelain', '/repo')[1] == '', 'repo dirty'
    rc, out = sh('git apply --check %s/patch.diff && git apply %s/patch.diff' % (tmp, tmp), '/repo')
    if rc: return 'patch does not apply: ' + out
    try:
        if cxx:
            rc, out = sh('bash /opt/vp/build.sh', '/repo')
            if rc: return 'build: ' + out[-500:]
        rc, out = sh('bash %s/demo.sh' % tmp, '/repo')
        if rc == 0: return 'demo passes on the changed tree'
        msg = out.strip().split('\n')[-1][:200]
        rc, out = sh('bash /opt/vp/test.sh /tmp/seedt.json', '/repo')
        r = json.load(open('/tmp/seedt.json')); ok = set(r['passed'])
        base = json.load(open('/opt/vp/BASELINE.json')); st = set(base.get('stable') or base.get('passed') or base.get('stable_passes') or base)
        miss = st - ok
        if miss: return 'stable tests fail: ' + str(sorted(miss)[:5])
    finally:
        sh('git checkout -- .', '/repo')
        if cxx: sh('bash /opt/vp/build.sh', '/repo')
    if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree(tmp, d)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    return 'planted (%s)' % msg
for f in sys.argv[1:]:
    g = runpy.run_path(f)
    for s in g['BUGS']:
        try: print(s['id'], plant(s), flush=True)
        except Exception as ex: print(s['id'], repr(ex)[:300], flush=True)
shutil.rmtree(W, ignore_errors=True)
