#!/usr/bin/env python3
"""plant.py BATCH.py [ID..]: BATCH defines SEEDS = [dict(id,prop,edits=[(file,old,new)],demo=python text,needs,breaks)].
Writes seeded/<id>/ and confirms each in a scratch copy bound over /repo (build, demo before and after, stable tests), then runs its check on it."""
import os, sys, json, runpy, shutil, subprocess, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = runpy.run_path(sys.argv[1])['SEEDS']
if sys.argv[2:]: SEEDS = [s for s in SEEDS if s['id'] in sys.argv[2:]]
BUILT = json.load(open('/opt/vp/BASELINE.json'))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(s):
    d = os.path.join(V, 'seeded', s['id']); w = '/tmp/pl/' + s['id']
    sh('rm -rf %s; mkdir -p %s; cp -a /repo %s/' % (w, w, w)); r = w + '/repo'
    for f, a, b in s['edits']:
        p = os.path.join(r, f); t = open(p, newline='').read()
        if '\r\n' in t: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
        if a not in t: return s['id'], 'edit text not found: ' + a[:60]
        open(p, 'w', newline='').write(t.replace(a, b, 1))
    os.makedirs(d, exist_ok=True)
    subprocess.run('git -C %s diff > %s/patch.diff; git -C %s checkout -q -- .' % (r, d, r), shell=True)
    shutil.copy(V + '/tools/aw.py', d + '/aw.py')
    open(d + '/demo.py', 'w').write('from aw import *\n' + s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n'); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    q = sh("unshare -Urm bash -c 'mount --bind %s /repo; cd /repo; bash /opt/vp/build.sh >%s/b0 2>&1 || echo BUILD0; bash %s/demo.sh >%s/d0 2>&1; echo D0 $?; git apply %s/patch.diff; bash /opt/vp/build.sh >%s/b1 2>&1 || echo BUILD1;"
           "bash %s/demo.sh >%s/d1 2>&1; echo D1 $?; bash /opt/vp/test.sh %s/o.json >%s/t 2>&1; echo T $?'" % (r, w, d, w, d, w, d, w, w, w))
    o = q.stdout.split('\n'); msg = []
    if 'D0 0' not in o: msg.append('demo fails unpatched: ' + open(w + '/d0').read()[-300:])
    if 'D1 0' in o: msg.append('demo passes with the patch')
    if 'BUILD0' in o or 'BUILD1' in o: msg.append('build failed ' + open(w + '/b1').read()[-600:])
    try:
        j = json.load(open(w + '/o.json'))
        if len(j['passed']) < 5: msg.append('tests: %s' % j)
    except Exception as e: msg.append('no test result ' + q.stderr[-300:])
    c = sh('cd %s; SA_REPO=%s SA_NOEVIDENCE=1 python3 checks/run.py %s' % (V, r, s['prop']))
    msg.append(('CAUGHT' if c.returncode == 1 else 'missed rc=%d' % c.returncode) + ' ' + next((l for l in (c.stdout + c.stderr).split('\n') if 'VIOL' in l), '')[:100] + ' | ' + open(w + '/d1').read()[-120:].strip())
    sh('rm -rf ' + w)
    return s['id'], ' ## '.join(msg)
os.makedirs('/tmp/pl', exist_ok=True)
with cf.ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, SEEDS): print(i, m, flush=True)
