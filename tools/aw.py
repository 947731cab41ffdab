"""Helper for demonstrations: runs the built console programs or a small C++ program linked with the library, in a scratch directory."""
import os, sys, re, math, shutil, subprocess, tempfile, atexit
D = tempfile.mkdtemp(prefix='demo'); atexit.register(shutil.rmtree, D, True)
W = '/repo/_build/ArcWelderConsole/ArcWelder'; S = '/repo/_build/ArcWelderInverseProcessor/ArcStraightener'
def _run(exe, text, args, name):
    p, o = os.path.join(D, name), os.path.join(D, 'out.gcode')
    if os.path.exists(o): os.remove(o)
    open(p, 'wb').write(text.encode() if isinstance(text, str) else text)
    r = subprocess.run([exe, p, o, *args], capture_output=True, text=True, cwd=D, timeout=120)
    return r.returncode, (open(o, errors='replace').read() if os.path.exists(o) else None), r.stdout + r.stderr
def weld(text, *args): return _run(W, text, args, 'in.gcode')
def straighten(text, *args): return _run(S, text, args, 'in.gcode')
def run(exe, *args, cwd=None): return subprocess.run([exe, *args], capture_output=True, text=True, cwd=cwd or D, timeout=120)
def cpp(src, flags='', env=None):
    p = os.path.join(D, 't.cpp'); open(p, 'w').write(src)
    subprocess.run('c++ -w -O1 -g -std=gnu++11 -include cstdint %s -I/repo/ArcWelder -I/repo/GcodeProcessorLib -I/repo/ArcWelderInverseProcessor t.cpp '
                   '/repo/ArcWelder/*.cpp /repo/GcodeProcessorLib/*.cpp $(ls /repo/ArcWelderInverseProcessor/*.cpp | grep -v ArcWelderInverseProcessor.cpp) -o t' % flags, shell=True, cwd=D, check=True)
    return subprocess.run(['./t'], capture_output=True, text=True, cwd=D, timeout=120, env=dict(os.environ, **(env or {})))
def cmds(text): return [l.split(';')[0].strip() for l in text.split('\n') if l.split(';')[0].strip() and not l.startswith(';')]
def arcs(text): return [c for c in cmds(text) if re.match(r'G[23]\b', c)]
def par(c): return {m[0]: float(m[1]) for m in re.findall(r'([A-Z])(-?\d*\.?\d+)', c)}
def circle(n=60, r=10., cx=100., cy=100., a0=0., a1=None, e=0.05, f=1800, rel=True, pre='M83\nG90\n', z=0.2, tail='', com=None):
    """Moves along an arc from a0 to a1 (radians)."""
    a1 = math.pi * 1.5 if a1 is None else a1
    o = pre + 'G1 X%.3f Y%.3f Z%.3f F%d\n' % (cx + r * math.cos(a0), cy + r * math.sin(a0), z, f)
    et = 0
    for i in range(1, n + 1):
        a = a0 + (a1 - a0) * i / n; et += e
        o += 'G1 X%.3f Y%.3f' % (cx + r * math.cos(a), cy + r * math.sin(a))
        if e: o += ' E%.5f' % (e if rel else et)
        o += (' ;%s' % com(i) if com else '') + '\n'
    return o + tail
def need(c, msg):
    if not c: print('FAIL:', msg); sys.exit(1)
def sim(text, e_rel=False):
    """Position after every move: dicts with x y z e f, e being the total extruded."""
    p = dict(x=0., y=0., z=0., e=0., f=0.); out = []; last = 0.
    for c in cmds(text):
        w = c.split()[0]; q = par(c)
        if w == 'M83': e_rel = True
        if w == 'M82': e_rel = False
        if w == 'G92' and 'E' in q: last = q['E']
        if w in ('G0', 'G1', 'G2', 'G3'):
            for k in 'XYZF':
                if k in q: p[k.lower()] = q[k]
            if 'E' in q:
                p['e'] += q['E'] if e_rel else q['E'] - last
                if not e_rel: last = q['E']
            out.append(dict(p, c=c))
    return out
