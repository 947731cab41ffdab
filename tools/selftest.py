#!/usr/bin/env python3
"""Self test of the rules: applies small edits to a scratch copy of the sources and runs the check on it.
selftest.py [-j N] [PXX ...]   edits in tools/edits/*.py: BREAK = [(props, file, old, new)], KEEP = [...]
BREAK edits must be reported (exit 1) by the check of one of their properties, KEEP edits must leave all listed checks quiet (exit 0)."""
import os, sys, glob, shutil, subprocess, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def one(job):
    kind, props, file, old, new, want = job
    d = tempfile.mkdtemp(prefix='st.', dir='/tmp')
    try:
        for s in ('ArcWelder', 'ArcWelderConsole', 'ArcWelderInverseProcessor', 'GcodeProcessorLib', 'PyArcWelder', 'TCLAP', 'ArcWelderTest'):
            if os.path.isdir(os.path.join(REPO, s)): shutil.copytree(os.path.join(REPO, s), os.path.join(d, s))
        for f in ('CMakeLists.txt', 'sourcelist.cmake'):
            shutil.copy(os.path.join(REPO, f), d)
        reps = [(file, old, new)] if isinstance(file, str) else file
        for fl, a, b in reps:
            p = os.path.join(d, fl)
            s = open(p, newline='').read()
            if '\r\n' in s: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            if s.count(a) < 1: return job, 'NOMATCH', ''
            s = s.replace(a, b, 1)
            open(p, 'w', newline='').write(s)
        res = {}
        out = ''
        for pr in props:
            r = subprocess.run([sys.executable, os.path.join(V, 'checks/run.py'), pr], capture_output=True, text=True, cwd=V,
                               env=dict(os.environ, SA_REPO=d, SA_NOEVIDENCE='1'))
            res[pr] = r.returncode
            out += r.stdout + r.stderr[-1500:]
        return job, res, out
    finally:
        shutil.rmtree(d)


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith('-')]
    jobs = []
    for f in sorted(glob.glob(os.path.join(V, 'tools/edits/*.py'))):
        m = runpy.run_path(f)
        for k in ('BREAK', 'KEEP'):
            for e in m.get(k, []):
                props = e[0].split()
                if sel and not (set(props) & set(sel) or os.path.basename(f)[:-3] in sel): continue
                if len(e) == 2: jobs.append((k, props, e[1], None, None, k))
                else: jobs.append((k, props, e[1], e[2], e[3], k))
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for job, res, out in ex.map(one, jobs):
            kind, props, file, old, new, _ = job
            ok = res != 'NOMATCH' and ((kind == 'BREAK' and any(v == 1 for v in res.values())) or (kind == 'KEEP' and all(v == 0 for v in res.values())))
            if not ok:
                bad += 1
                print('%s %s %s %r -> %r: %s' % ('MISSED' if kind == 'BREAK' else 'NOISE', props, file if isinstance(file, str) else file[0][0], (old or str(file))[:70], (new or '')[:90], res))
                if kind == 'KEEP' or 'ERR' in out or 'Trace' in out: print('   ', out[-900:])
            elif kind == 'BREAK' and '-v' in sys.argv:
                print('caught', props, repr((new or '')[:60]), res); print(out[-600:])
    print('%d edits, %d unexpected' % (len(jobs), bad))


main()
