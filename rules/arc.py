"""P04-P09: the arc fit, its acceptance, rollback, text and length."""
from ._lib import *
from sa.loops import closed, infos, const_delta, resolve, pick

AR = 'array_list<printer_point>'
AT = {AR + '::operator[]', AR + '::get', AR + '::at'}
CNT = AR + '::count'
CC = 'circle::try_create_circle'
OVER, DEVSQ = 'circle::is_over_deviation', 'circle::get_deviation_sum_squared'
TCA = 'arc::try_create_arc'
SLICE = 'arc::are_points_within_slice'
RAY = 'arc::ray_intersects_segment'
POLAR = 'circle::get_polar_radians'
PERP = 'segment::get_closest_perpendicular_point'
INTERNAL = 'segmented_arc::try_add_point_internal_'
TRYADD = 'segmented_arc::try_add_point'
N = ('count',)
PI = 3.14159265358979323846


def pt(i): return ('pt', i)


def px(i, f): return fld(pt(i), f)


def points_call(E, s, ci):
    if ci.q in AT:
        root = ('pt', ci.args[0])
        s.env[root] = pt(ci.args[0])
        return [(s, LV(root, ()))]
    if ci.q == CNT: return [(s, N)]
    return None


def nparam(cx, q, n):
    """the overload of q with n parameters"""
    return cx.p.find(q, n)


def pidx(fn, name=None, ty=None, k=0):
    hits = [i for i, p in enumerate(fn['p']) if (name is None or p['n'] == name) and (ty is None or ty in p['ty'])]
    if len(hits) <= k: raise AnalysisError('%s has no parameter %s' % (fn['q'], name or ty))
    return hits[k]


def tr(v): return truth(v, 'bool')


def true_paths(outs):
    """paths that can return true, with that assumed"""
    for k, s, v in outs:
        if k != 'R': continue
        v = retval(s, v)
        if is_c(v) and not v[1]: continue
        t = s.copy()
        if not t.assume(tr(v), True): continue
        if contradictory(t): continue
        yield t, v


def out_of(s, i): return s.load(('param', '#%d' % i), ())


# ------------------------------------------------------------------ P05
def circle3(cx, P5=True):
    fn = cx.p.find(CC, 5)
    E, outs = paths(cx, fn)
    A = [('init', ('param', '#%d' % i)) for i in range(3)]
    n = 0
    mr = arg(3)
    for s, v in true_paths(outs):
        n += 1
        c = out_of(s, 4)
        X, Y, R_ = fld(c, 'center', 'x'), fld(c, 'center', 'y'), fld(c, 'radius')
        if P5:
            d2 = lambda a: add(mul(sub(X, fld(a, 'x')), sub(X, fld(a, 'x'))), mul(sub(Y, fld(a, 'y')), sub(Y, fld(a, 'y'))))
            for i, nm in ((1, 'second'), (2, 'third')):
                cx.same(d2(A[0]), d2(A[i]), 'circle-centre', fn, 'the centre is as far from the %s point as from the first' % nm, s.facts)
            cx.same(mul(R_, R_), d2(A[0]), 'circle-radius', fn, 'the radius is the distance of the centre from the points', s.facts)
            neg_ok = entails(s, NOT(lt(R_, C(0)))) or (R_[0] == 'call' and R_[1] in ('sqrt', 'abs', 'hypot', 'utilities::sqrt')) or 'sqrt' in repr(R_)
            cx.ob(neg_ok, 'circle-radius-sign', fn, 'the radius is not negative', detail=show(R_))
        else:
            cx.ob(entails(s, NOT(lt(mr, R_))), 'max-radius', fn, 'a circle is accepted only if its radius is at most the maximum', detail=show(R_))
    cx.need(n, 1, 'successful paths of the circle through three points')


def perp(cx):
    fn = cx.p.find(PERP, 4)
    E, outs = paths(cx, fn)
    p1, p2, c = [('init', ('param', '#%d' % i)) for i in range(3)]
    dx, dy = sub(fld(p2, 'x'), fld(p1, 'x')), sub(fld(p2, 'y'), fld(p1, 'y'))
    n = 0
    dot = add(mul(sub(fld(c, 'x'), fld(p1, 'x')), dx), mul(sub(fld(c, 'y'), fld(p1, 'y')), dy))
    den = add(mul(dx, dx), mul(dy, dy))
    t = div(dot, den)
    for k, s, v in outs:
        if k != 'R': continue
        v = retval(s, v)
        inside = AND(AND(lt(C(0), t), lt(t, C(1))), AND(NOT(lt(absv(t), C(1e-4))), NOT(lt(absv(sub(t, C(1))), C(1e-4)))))
        for cs, x in split_cases(v):
            S = s.copy()
            if not all(S.assume(a, b) for a, b in cs): continue
            if is_c(x) and not x[1] or not is_c(x):
                F = Facts(S.facts)
                if not is_c(x): F.add(norm.bnot(B(tr(x))))
                F.add(B(inside))
                cx.ob(norm.contradiction(F), 'foot-found', fn, 'a segment whose closest point lies inside it is not skipped')
        S = s.copy()
        if is_c(v) and not v[1] or not S.assume(tr(v), True) or contradictory(S): continue
        n += 1
        d = out_of(S, 3)
        cx.same(add(mul(sub(fld(d, 'x'), fld(c, 'x')), dx), mul(sub(fld(d, 'y'), fld(c, 'y')), dy)), C(0), 'foot-perpendicular', fn, 'the line from the centre to the foot is perpendicular to the segment', S.facts)
        cx.same(sub(mul(sub(fld(d, 'x'), fld(p1, 'x')), dy), mul(sub(fld(d, 'y'), fld(p1, 'y')), dx)), C(0), 'foot-on-line', fn, 'the foot lies on the line through the segment', S.facts)
    cx.need(n, 1, 'paths that find a foot')
    f2 = cx.p.find(PERP, 2)
    # the member version is the static one on its own end points
    E, outs = paths(cx, f2, opaque=set())


def ends(cx):
    """I and J, start and end of the accepted arc"""
    A = ('init', ('this', 'arc'))
    for nm, ax in (('get_i', 'x'), ('get_j', 'y')):
        fn = cx.p.find('arc::' + nm)
        E, outs = paths(cx, fn)
        n = 0
        for k, s, v in outs:
            if k != 'R': continue
            n += 1
            cx.same(retval(s, v), sub(fld(A, 'center', ax), fld(A, 'start_point', ax)), 'offset-' + ax, fn, 'the centre offset is measured from the start point of the arc', s.facts)
        cx.need(n, 1, 'paths of ' + nm)
    fn = cx.p.find(TCA, 9)
    E, outs = paths(cx, fn, merge=True, gate=True, pure={POLAR, 'utilities::get_percent_change'})
    i0, i1, i2, i3 = pidx(fn, ty='circle'), pidx(fn, ty='printer_point'), pidx(fn, ty='printer_point', k=2), pidx(fn, ty='arc &')
    n = 0
    for s, v in true_paths(outs):
        n += 1
        t = out_of(s, i3)
        src = lambda i: ('init', ('param', '#%d' % i))
        same_value(cx, fld(t, 'start_point'), src(i1), ('x', 'y', 'z', 'f', 'e_offset', 'is_extruder_relative'), 'arc-start', fn, 'the arc starts at the first point')
        same_value(cx, fld(t, 'end_point'), src(i2), ('x', 'y', 'z', 'f', 'e_offset', 'is_extruder_relative'), 'arc-end', fn, 'the arc ends at the last point')
        for f in ('x', 'y'):
            cx.same(fld(t, 'center', f), fld(src(i0), 'center', f), 'arc-centre', fn, "the arc has the circle's centre", s.facts)
        cx.same(fld(t, 'radius'), fld(src(i0), 'radius'), 'arc-radius', fn, "the arc has the circle's radius", s.facts)
    cx.need(n, 1, 'successful paths of the arc construction')
    create_points(cx, which='P05')


def same_value(cx, a, b, fields, code, fn, msg):
    if a == b: cx.ob(True, code, fn, msg); return
    for f in fields: cx.same(fld(a, f), fld(b, f), code, fn, msg)


@rule('P05', DOM + "The circle through three points, the foot of the perpendicular and the I/J offsets are decided as polynomial identities over the terms the code computes on every successful path; start, end and centre of the arc are traced from the fitted points to the accepted arc.")
def p05(cx):
    circle3(cx)
    perp(cx)
    ends(cx)


# ------------------------------------------------------------------ the arc built from the points
def refs(fn):
    """positions of the parameters a function can write"""
    return [i for i, p in enumerate(fn['p']) if p['ty'].endswith('&') and not p['ty'].startswith('const')]


def fork_call(made):
    """model of a predicate with result parameters: made(state, ci, truth) -> value of the result parameters / object"""
    def f(E, s, ci):
        out = []
        for b in (1, 0):
            t = s.copy()
            made(t, ci, b)
            out.append((t, C(b)))
        return out
    return f


class Built:
    """arc::try_create_arc(points, ...): what every path that returns true went through"""

    def __init__(self, cx):
        self.fn = fn = cx.p.find(TCA, 10)
        E = Engine(cx.p, opaque={CC, TCA, SLICE}, on_call=self.call, nomerge=True)
        a = {}
        for i, p in enumerate(fn['p']):
            a[p['n']] = arg(i) if not p['ty'].endswith('&') else LV(('param', '#%d' % i), ())
        self.outs = E.run(fn, State(mon=()), args=a)
        cx.funcs.add(fn['q'])

    def call(self, E, s, ci):
        r = points_call(E, s, ci)
        if r: return r
        if ci.q not in (CC, TCA, SLICE): return None
        return fork_call(self.made)(E, s, ci)

    def made(self, t, ci, b):
        t.mon = t.mon + ((ci.q, b, tuple(ci.args), ci.node.get('l')),)
        if b and ci.q != SLICE:
            for i in refs(ci.targets[0]):
                l = ci.lvs[i]
                if isinstance(l, LV): t.store(l.root, l.path, ('made', ci.q, len(t.mon) - 1))


def create_points(cx, which):
    B_ = Built(cx)
    fn = B_.fn
    P0 = lambda i: ('init', ('param', '#%d' % i))
    tgt = pidx(fn, ty='arc &')
    n = 0
    p3 = cx.p.find(TCA, 9)
    ci_, si, mi, ei = pidx(p3, ty='circle'), pidx(p3, ty='printer_point'), pidx(p3, ty='printer_point', k=1), pidx(p3, ty='printer_point', k=2)
    names = {p['n']: i for i, p in enumerate(fn['p'])}
    pc = cx.p.find(CC, 6)

    def par(ty, k): return pidx(fn, ty=ty, k=k)
    for s, v in true_paths(B_.outs):
        n += 1
        ev = {q: [e for e in s.mon if e[0] == q and e[1]] for q in (CC, TCA, SLICE)}
        val = out_of(s, tgt)
        if which == 'P04':
            cx.ob(bool(ev[CC]), 'needs-circle', fn, 'an arc is accepted only if a circle was fitted to the points')
            cx.ob(bool(ev[TCA]), 'needs-arc', fn, 'an arc is accepted only if the arc on the circle passed its checks')
            cx.ob(bool(ev[SLICE]), 'needs-slice', fn, "an arc is accepted only if its points lie within its slice")
        if not (ev[CC] and ev[TCA]): continue
        c, a = ev[CC][-1], ev[TCA][-1]
        aid = s.mon.index(a)
        if which == 'P05':
            cx.ob(val == ('made', TCA, aid), 'accepted-arc', fn, 'the arc accepted is the one that was built from the points', detail=show(val))
            cx.ob(equal(idx_of(a[2][si]), C(0)), 'first-point', fn, 'the arc is built from the first point', detail=show(a[2][si]))
            cx.ob(equal(idx_of(a[2][ei]), sub(N, C(1))), 'last-point', fn, 'the arc is built to the last point', detail=show(a[2][ei]))
            m = idx_of(a[2][mi])
            cx.ob(inner(m), 'mid-point', fn, 'the direction is taken from a point strictly between the first and the last', detail=show(m))
        else:
            cx.ob(a[2][ci_] == ('made', CC, s.mon.index(c)), 'same-circle', fn, 'the arc is built on the circle that was fitted', detail=show(a[2][ci_]))
            if ev[SLICE]:
                sl = ev[SLICE][-1]
                k = next((i for i, x in enumerate(sl[2]) if x[0] == 'made'), None)
                cx.ob(k is not None and sl[2][k] == ('made', TCA, aid) == val, 'same-arc', fn, 'the arc tested against its slice is the one accepted', detail=show(sl[2][k]) if k is not None else show(val))
    cx.need(n, 1, 'accepting paths of the arc construction')


def idx_of(t): return t[1] if t[0] == 'pt' else ('?', t)


def inner(m):
    """0 < m < n-1 for every n >= 3"""
    for n in range(3, 40):
        try: x = evali(m, n)
        except Exception: return False
        if not 0 < x < n - 1: return False
    return True


def evali(t, n):
    if t == N: return n
    if is_c(t): return t[1]
    if t[0] == 'op':
        a = [evali(x, n) for x in t[2:]]
        o_ = t[1]
        if o_ == '+': return a[0] + a[1]
        if o_ == '-': return a[0] - a[1]
        if o_ == '*': return a[0] * a[1]
        if o_ in ('/', 'idiv'): return int(a[0] / a[1])
        if o_ == '%': return a[0] % a[1]
        if o_ == '>>': return a[0] >> a[1]
        if o_ == 'neg': return -a[0]
    if t[0] == 'cast': return int(evali(t[2], n))
    raise ValueError(t)


# ------------------------------------------------------------------ P04
def fit_loop(cx):
    """the circle accepted for the points passed the deviation test of the same circle"""
    fn = cx.p.find(CC, 6)
    made = []

    def oc(E, s, ci):
        r = points_call(E, s, ci)
        if r: return r
        if ci.q == CC and len(ci.args) == 5:
            made.append(ci)
            def mk(t, ci, b):
                l = ci.lvs[4]
                t.store(l.root, l.path, ('circ', E.nid(ci.node), tuple(ci.args[:4])) if b else ('nocirc', E.nid(ci.node)))
            return fork_call(mk)(E, s, ci)
        if ci.q in (OVER, DEVSQ):
            good = 0 if ci.q == OVER else 1
            def mk(t, ci, b):
                v = t.load(ci.this.root, ci.this.path)
                if b == good: t.store(ci.this.root, ci.this.path, ('checked', v, tuple(ci.args[1:4])))
                for i in refs(ci.targets[0]):
                    l = ci.lvs[i]
                    if isinstance(l, LV): t.store(l.root, l.path, ('dev', E.nid(ci.node)))
            return fork_call(mk)(E, s, ci)
        return None
    E = Engine(cx.p, opaque={CC, OVER, DEVSQ}, on_call=oc, nomerge=True, keep_locals=False)
    a = {p['n']: (arg(i) if not p['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, p in enumerate(fn['p'])}
    outs = E.run(fn, State(mon=()), args=a)
    tgt = refs(fn)[-1]
    loops = infos(E)
    n = 0
    for k, s, v in outs:
        if k != 'R': continue
        v = retval(s, v)
        for cs, x, w in joint(s, v, out_of(s, tgt)):
            if is_c(x) and not x[1]: continue
            S = s.copy()
            if not all(S.assume(c, b) for c, b in cs) or not S.assume(tr(x), True) or contradictory(S): continue
            n += 1
            ok, why = checked(cx, fn, loops, S, x, w, set())
            cx.ob(ok, 'circle-tested', fn, 'the circle accepted for the points passed the deviation test of all points', detail=why)
    cx.need(n, 1, 'accepting paths of the circle fit')
    cx.need(len(made), 1, 'circle candidates')


def joint(s, v, w, cs=()):
    """cases of two values that are conditional on the same conditions"""
    for t in (v, w):
        if t[0] == 'ite':
            out = []
            for b in (True, False):
                h = s.holds(t[1])
                if h is not None and h != b: continue
                f = lambda y: (y[2] if b else y[3]) if y[0] == 'ite' and y[1] == t[1] else y
                out += joint(s, f(v), f(w), cs + ((t[1], b),))
            return out
    return [(cs, v, w)]


def checked(cx, fn, loops, s, flag, w, seen):
    """value w is a circle that passed its test (given that flag is true)"""
    if w[0] == 'checked':
        c = w[1]
        if c[0] != 'circ': return (False, 'not a fitted circle: ' + show(c)[:200])
        i0, i1, i2 = [idx_of(x) for x in c[2][:3]]
        ends_ = equal(i0, C(0)) and equal(i2, sub(N, C(1)))
        return (ends_, 'the circle is fitted through the points %s' % ', '.join(show(x) for x in (i0, i1, i2)))
    if w[0] == 'phi' and flag[0] == 'phi' and w[1] == flag[1]:
        key = (w, flag)
        if key in seen: return True, ''
        seen = seen | {key}
        for li in loops:
            if li.lid != w[1]: continue
            e = li.entry.get(flag)
            if e is None: return False, 'unknown value before the loop'
            if not (is_c(e) and not e[1]):
                r = checked(cx, fn, loops, s, e, li.entry.get(w, w), seen)
                if not r[0]: return r
            for b in li.backs:
                if contradictory(b): continue
                for cs, x, y in joint(b, b.load(flag[2], flag[3]), b.load(w[2], w[3])):
                    S = b.copy()
                    if not all(S.assume(c, v) for c, v in cs): continue
                    if is_c(x) and not x[1]: continue
                    if not S.assume(tr(x), True) or contradictory(S): continue
                    if y == w:
                        if x == flag or S.holds(tr(flag)): continue
                        return False, 'a circle counts as found although none was tested'
                    r = checked(cx, fn, loops, S, x, y, seen)
                    if not r[0]: return r
        return True, ''
    if w[0] == 'phi' and flag[0] != 'phi':
        for li in loops:
            if li.lid != w[1]: continue
            for f in li.entry:
                if f != w and (s.holds(tr(f)) or s.holds(truth(f, 'int'))) and checked(cx, fn, loops, s, f, w, seen)[0]: return True, ''
    return False, 'accepted without the test: ' + show(w)[:200]


def deviation(cx, fn, good):
    """every inner point, every segment and every Z step is tested; good: the value returned when all is within"""
    C0 = ('init', ('this', 'circle'))
    cxp = {p['n']: i for i, p in enumerate(fn['p'])}
    dbl = [i for i, p in enumerate(fn['p']) if p['ty'].replace('const ', '') == 'double']
    boo = [i for i, p in enumerate(fn['p']) if p['ty'].replace('const ', '') == 'bool']
    if len(dbl) < 2 or not boo: raise AnalysisError('%s does not take resolution, tolerance and the 3D flag' % fn['q'])
    res, tol, a3 = arg(dbl[0]), arg(dbl[1]), tr(arg(boo[0]))
    foot = []

    def oc(E, s, ci):
        r = points_call(E, s, ci)
        if r: return r
        if ci.q == PERP:
            foot.append(ci)
            p1, p2 = [idx_of_val(x) for x in ci.args[:2]]
            def mk(t, ci, b):
                l = ci.lvs[3]
                t.assume(('foot', p1, p2, tuple(ci.args[2:3])), bool(b))
                if b: t.store(l.root, l.path, ('footpt', p1, p2, ci.args[2]))
            return fork_call(mk)(E, s, ci)
        return None
    E = Engine(cx.p, opaque={PERP}, on_call=oc, nomerge=True)
    a = {p['n']: (arg(i) if not p['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, p in enumerate(fn['p'])}
    outs = E.run(fn, State(mon=()), args=a)
    dist = lambda u: sqrt(add(mul(sub(fld(u, 'x'), fld(C0, 'center', 'x')), sub(fld(u, 'x'), fld(C0, 'center', 'x'))), mul(sub(fld(u, 'y'), fld(C0, 'center', 'y')), sub(fld(u, 'y'), fld(C0, 'center', 'y')))))
    loops = infos(E)
    cover = {'vertex': [], 'segment': [], 'z': []}
    first = True
    for li in loops:
        iv = [(t, li.entry[t]) for t in li.entry if li.delta.get(t) in (1, -1) and intlike(li.entry[t])]
        for t, e in iv:
            bs = [at_value(b, t, e, li.delta[t]) for b in li.backs if not contradictory(b)]
            if not bs: continue
            for off in (-1, 0, 1):
                i = add(t, C(off)) if off else t
                known = lambda b, i: norm.subst(i, {t: b.facts[('val', t)]}) if ('val', t) in b.facts else i
                ve = all(entails(b, OR(lt(known(b, i), C(1)), NOT(lt(res, absv(sub(dist(pt(known(b, i))), fld(C0, 'radius'))))))) for b in bs)
                sg = all(seg_ok(b, known(b, i), dist, C0, res) for b in bs)
                zs = any(all(z_ok(u, b, known(b, i), dist, tol, a3) for b in bs) for u in li.entry if u in li.phis.values() and li.delta.get(u) not in (1, -1))
                rng = index_range(li, t, off)
                if rng is None: continue
                if ve: cover['vertex'].append((rng, True))
                if sg: cover['segment'].append((rng, True))
                if zs: cover['z'].append((rng, True))
    n2 = sub(N, C(2))
    what = {'vertex': ('deviation-points', 'every inner point is tested against the resolution', 1), 'segment': ('deviation-segments', 'the closest approach of every segment is tested against the resolution', 0),
            'z': ('z-steps', 'with 3D arcs every Z step after the first is compared with the first', 2)}
    for kind, (code, msg, lo) in what.items():
        ok = any(lo_ok(r[0], lo) and hi_ok(r[1]) for r, _ in cover[kind])
        cx.ob(ok, code, fn, msg, detail='tested index ranges: ' + ('; '.join('%s .. %s' % (show(r[0]), show(r[1])) for r, _ in cover[kind]) or 'none'))
    n = 0
    for k, s, v in outs:
        if k != 'R': continue
        v = retval(s, v)
        if is_c(v) and bool(v[1]) == good: n += 1
    cx.need(n, 1, 'accepting paths of ' + fn['q'])
    cx.need(len(foot), 1, 'segment tests in ' + fn['q'])
    # accepting paths come only from the end of the loops
    for li in loops:
        for kd, s, v in [x if len(x) == 3 else (x[0], x[1], None) for x in li.exits]:
            if kd == 'R' and v is not None and is_c(retval(s, v)) and bool(retval(s, v)[1]) == good and not contradictory(s):
                cx.ob(False, 'early-accept', fn, 'the points are accepted only after the last one was tested', li.node)


def intlike(t): return not (is_c(t) and isinstance(t[1], float))


def idx_of_val(t):
    if t[0] == 'pt': return t[1]
    # a copy of a point's coordinates
    for x in subterms(t):
        if x[0] == 'pt': return x[1]
    return ('?', t)


def at_value(b, t, entry=None, step=None):
    """state b rewritten with the value of t it knows, and with the range of an induction variable"""
    m = {}
    for u, c in b.facts.items():
        if u[0] == 'val' and mentions(u[1], t) and is_c(c) and type(c[1]) is int:
            d = const_delta(u[1], t)
            if d is not None and d == int(d): m = {t: C(c[1] - int(d))}; break
    if not m:
        if entry is None: return b
        b = b.copy()
        b.facts[lt(t, entry) if step == 1 else lt(entry, t)] = False
        return b
    f = {}
    for k, v in b.facts.items():
        if k[0] == 'val':
            if k[1] == t or not mentions(k[1], t): f[k] = v
        else: f[norm.subst(k, m)] = v
    f[('val', t)] = m[t]
    return State({k: norm.subst(v, m) for k, v in b.env.items()}, f, b.mon, b.tags, b.comp)


def seg_ok(b, i, dist, C0, res):
    """the segment from point i on has no inner closest point, or it is within the resolution"""
    for x in {x for t in b.facts for x in subterms(t) if x[0] == 'foot'}:
        if not (equal(x[1], i) and equal(x[2], add(i, C(1))) or equal(x[2], i) and equal(x[1], add(i, C(1)))): continue
        if not samexy_terms(x[3][0], fld(C0, 'center')): continue
        if b.holds(x) is False: return True
        y = ('footpt', x[1], x[2], x[3][0])
        if entails(b, OR(NOT(x), NOT(lt(res, absv(sub(dist(y), fld(C0, 'radius'))))))): return True
    return False


def samexy_terms(a, b): return a == b or all(equal(fld(a, f), fld(b, f)) for f in 'xy')


def z_ok(t, b, i, dist, tol, a3):
    """under 3D: the step per distance at point i equals the remembered first one, which is set at point 1 and kept afterwards"""
    cur = div(sub(px(i, 'z'), px(add(i, C(-1)), 'z')), dist(pt(i)))
    small = lt(absv(sub(t, cur)), tol)
    early = lt(i, C(2))
    if not entails(b, OR(OR(NOT(a3), early), small)): return False
    nv = b.load(t[2], t[3])
    # afterwards: kept, or set to the current step at the first point
    for cs, x in split_cases(nv):
        F = Facts(b.facts)
        for c, h in cs: F.add(B(c) if h else norm.bnot(B(c)))
        if norm.contradiction(F): continue
        if x == t:
            if not norm.entails(F, OR(NOT(a3), NOT(eq(i, C(1))))): return False
        elif equal(x, cur):
            if not norm.entails(F, eq(i, C(1))): return False
        else: return False
    return True


def index_range(li, t, off):
    """(first, last) value of t+off over the passes of the loop"""
    lo = add(li.entry[t], C(off))
    for kd, s, *_ in li.exits:
        if kd != 'N' or contradictory(s): continue
        k = li.count(s)
        if k is None: return None
        return lo, add(add(li.entry[t], sub(k, C(1))), C(off)) if li.delta[t] == 1 else None
    return None


def lo_ok(lo, want):
    d = const_delta(lo, C(want))
    return d is not None and d <= 0


def hi_ok(hi):
    d = const_delta(hi, sub(N, C(2)))
    return d is not None and d >= 0


HYP = ('utilities::hypot', 'hypot', 'std::hypot')


def arc_checks(cx):
    """the arc on a circle"""
    fn = cx.p.find(TCA, 9)
    GPC = 'utilities::get_percent_change'
    E, outs = epaths(cx, fn, pure={POLAR, GPC, HYP[0]})
    ic, ps = pidx(fn, ty='circle'), [i for i, p in enumerate(fn['p']) if 'printer_point' in p['ty']]
    it = pidx(fn, ty='arc &')
    dbl = [i for i, p in enumerate(fn['p']) if p['ty'].replace('const ', '') == 'double']
    boo = [i for i, p in enumerate(fn['p']) if p['ty'].replace('const ', '') == 'bool']
    approx, tolp, a3 = arg(dbl[0]), arg(dbl[-1]), tr(arg(boo[0]))
    src = lambda i: ('init', ('param', '#%d' % i))
    cr, S_, M_, E_ = src(ic), src(ps[0]), src(ps[1]), src(ps[2])
    th = {nm: call(POLAR, cr, p) for nm, p in (('s', S_), ('m', M_), ('e', E_))}
    tau = C(2 * PI)
    rz = sub(fld(E_, 'z'), fld(S_, 'z'))
    samez = OR(NOT(a3), eq(fld(S_, 'z'), fld(E_, 'z')))
    hyps = lambda x: [call(h, x, rz) for h in HYP] + [sqrt(add(mul(x, x), mul(rz, rz)))]
    n = 0
    for s, v in true_paths(outs):
        t = out_of(s, it)
        d, L, ang = [resolve(s, fld(t, f)) for f in ('direction', 'length', 'angle_radians')]
        ren = {}
        for tt in list(s.facts) + [L, ang]:
            for x in subterms(tt):
                if x[0] == 'call' and x[1] == POLAR and len(x[2]) == 2 and x not in th.values():
                    for nm, pp in (('s', S_), ('m', M_), ('e', E_)):
                        if samept(x[2][1], pp) and samecirc(x[2][0], cr): ren[x] = th[nm]
        F = Facts({(norm.subst(k, ren) if k[0] != 'val' else k): b for k, b in s.facts.items()})
        L, ang = norm.subst(L, ren), norm.subst(ang, ren)
        for x in th.values():
            F.add(B(NOT(lt(x, C(0))))); F.add(B(lt(x, tau)))
        if norm.contradiction(F): continue
        n += 1
        L = noabs(F, L)
        known = is_c(d) and d[1] in (1, 2)
        cx.ob(known or entails(F, OR(eq(d, C(1)), eq(d, C(2)))), 'direction-known', fn, 'an arc is accepted only with a determined direction', detail=show(d))
        if not known: continue
        cx.ob(entails(F, lt(ang, C(0)) if d[1] == 2 else NOT(lt(ang, C(0)))), 'direction-sign', fn, 'the signed angle is negative exactly for clockwise arcs', detail=show(ang))
        # length within tolerance
        pc = [norm.subst(x, ren) for tt in s.facts for x in subterms(tt) if x[0] == 'call' and x[1] == GPC]
        mine = [x for x in pc if equal(noabs(F, x[2][0]), L) and equal(x[2][1], approx)]
        okl = any(entails(F, lt(absv(x), tolp)) for x in mine) or entails(F, lt(absv(div(sub(approx, L), L)), tolp))
        cx.ob(okl, 'path-tolerance', fn, 'an arc is accepted only if its length is within the path tolerance of the original length', detail=show(L))
        # the length is that of the arc in its direction
        base = sub(th['e'], th['s']) if d[1] == 1 else sub(th['s'], th['e'])
        ok = False
        for sw, cond in ((base, lt(C(0), base)), (add(base, tau), lt(base, C(0)))):
            if not entails(F, cond): continue
            flat = mul(fld(cr, 'radius'), sw)
            if equal(L, flat): ok = entails(F, samez)
            else: ok = any(equal_calls(L, h, F) for h in hyps(flat)) and entails(F, a3)
        cx.ob(ok, 'arc-length', fn, "the length tested is the radius times the angle swept in the arc's own direction (with Z when 3D arcs are allowed)", detail=show(L))
        # 3D: shorter than one turn
        full = hyps(mul(fld(cr, 'radius'), tau))
        fs = full + [norm.subst(x, ren) for tt in s.facts for x in subterms(tt) if x[0] == 'call' and any(equal_calls(x, f, F) for f in full)]
        cx.ob(any(entails(F, OR(NOT(a3), lt(approx, x))) for x in fs), 'one-turn', fn, 'with 3D arcs an arc is accepted only if its path is shorter than one full turn')
        # direction: middle point on the side, unless the other direction matched the length
        m, st, en = th['m'], th['s'], th['e']
        ccw = OR(AND(AND(lt(st, m), lt(m, en)), lt(st, en)), AND(lt(en, st), OR(lt(st, m), lt(m, en))))
        cw = OR(AND(AND(lt(en, m), lt(m, st)), lt(en, st)), AND(lt(st, en), OR(lt(m, st), lt(en, m))))
        first = entails(F, ccw if d[1] == 1 else cw, 4)
        other = not first and entails(F, cw if d[1] == 1 else ccw, 4)
        cx.ob(first or other, 'direction-middle', fn, 'the direction follows the middle point (or the other direction, when only its length matches)', detail=show(d))
        if other:
            fails = [x for x in pc if not equal(noabs(F, x[2][0]), L) and entails(F, NOT(lt(absv(x), tolp)))]
            cx.ob(bool(fails), 'direction-flip', fn, "the direction opposite to the middle point's is taken only if the length in the middle point's direction does not match")
    cx.need(n, 4, 'successful paths of the arc construction')


def equal_calls(a, b, F):
    if equal(a, b): return True
    return a[0] == b[0] == 'call' and a[1] == b[1] and len(a[2]) == len(b[2]) and all(equal(noabs(F, x), noabs(F, y)) or k == 1 and equal(x, neg(y)) for k, (x, y) in enumerate(zip(a[2], b[2])))


def noabs(F, t):
    for x in [x for x in subterms(t) if x[0] == 'call' and x[1] in ('abs', 'std::abs', 'fabs', 'std::fabs', 'utilities::abs')]:
        if entails(F, NOT(lt(C(0), x[2][0]))): return noabs(F, norm.subst(t, {x: neg(x[2][0])}))
        if entails(F, NOT(lt(x[2][0], C(0)))): return noabs(F, norm.subst(t, {x: x[2][0]}))
    return t


def samept(a, b):
    return a == b or all(fld(a, f) == fld(b, f) for f in 'xy')


def samecirc(a, b):
    return a == b or all(fld(a, 'center', f) == fld(b, 'center', f) for f in 'xy')


def slice_checks(cx):
    fn = cx.p.find(SLICE)
    A = ('init', ('param', '#%d' % pidx(fn, ty='arc')))
    rays = []

    def oc(E, s, ci):
        r = points_call(E, s, ci)
        if r: return r
        if ci.q == RAY:
            rays.append(ci)
            t = ('call', RAY, (ci.args[1], ci.args[2], ci.args[3]))
            return [(s, t)]
        if ci.q == POLAR: return [(s, ('polar', idx_of_val(ci.args[0])))]
        return None
    E = Engine(cx.p, opaque={RAY, POLAR}, on_call=oc, nomerge=True)
    a = {p['n']: LV(('param', '#%d' % i), ()) for i, p in enumerate(fn['p'])}
    outs = E.run(fn, State(mon=()), args=a)
    st, en = fld(A, 'polar_start_theta'), fld(A, 'polar_end_theta')
    ccw = eq(fld(A, 'direction'), C(1))
    last = sub(N, C(1))
    found = 0
    for li in infos(E):
        iv = [t for t in li.entry if li.delta.get(t) == 1 and intlike(li.entry[t])]
        bs = [b for b in li.backs if not contradictory(b)]
        if not iv or not bs: continue
        t = iv[0]
        rng = index_range(li, t, 0)
        ok = rng is not None and const_delta(rng[0], sub(N, C(2))) is not None and const_delta(rng[0], sub(N, C(2))) <= 0 and const_delta(rng[1], last) is not None and const_delta(rng[1], last) >= 0
        cx.ob(ok, 'slice-range', fn, 'the new segment (from the last but one to the last point) is tested', li.node, None if rng is None else '%s .. %s' % (show(rng[0]), show(rng[1])))
        found += 1
        for b in bs:
            p = ('polar', t)
            isl = NOT(lt(t, last))
            in_ccw = OR(AND(lt(en, st), OR(lt(st, p), lt(p, en))), AND(NOT(lt(en, st)), AND(lt(st, p), lt(p, en))))
            in_cw = OR(AND(lt(st, en), OR(lt(p, st), lt(en, p))), AND(NOT(lt(st, en)), AND(lt(p, st), lt(en, p))))
            cx.ob(entails(b, OR(OR(isl, NOT(ccw)), in_ccw), 4), 'slice-ccw', fn, 'a point of a counter-clockwise arc lies between its start and end angle', li.node)
            cx.ob(entails(b, OR(OR(isl, ccw), in_cw), 4), 'slice-cw', fn, 'a point of a clockwise arc lies between its start and end angle', li.node)
            nb = at_value(b, t)
            i = b.facts.get(('val', t), t)
            dirs = {nm: [{f: div(sub(fld(A, nm, f), fld(A, 'center', f)), fld(A, 'radius')) for f in 'xy'}, {f: sub(fld(A, nm, f), fld(A, 'center', f)) for f in 'xy'}] for nm in ('start_point', 'end_point')}
            for nm, skip, code in (('start_point', eq(i, C(1)), 'slice-cross-start'), ('end_point', eq(i, last), 'slice-cross-end')):
                hit = [x for k in nb.facts if k[0] != 'val' for x in subterms(k) if x[0] == 'call' and x[1] == RAY and any(all(equal(fld(x[2][0], f), w[f]) for f in 'xy') for w in dirs[nm])
                       and {idx_key(x[2][1]), idx_key(x[2][2])} == {idx_key(pt(i)), idx_key(pt(add(i, C(-1))))}]
                okc = entails(nb, skip) or any(entails(nb, OR(skip, NOT(x))) for x in hit)
                cx.ob(okc, code, fn, "the segment does not cross the ray from the centre through the arc's %s" % nm.replace('_', ' '), li.node)
    cx.need(found, 1, 'slice loops')
    seen_s = seen_e = False
    rad = fld(A, 'radius')
    for ci in rays:
        d = ci.args[1]
        ok0 = samexy(cx, ci.args[0], fld(A, 'center'))
        pa, pb = idx_of_val(ci.args[2]), idx_of_val(ci.args[3])
        cx.ob(ok0 and const_delta(pb, pa) in (1, -1), 'slice-ray', fn, "the rays from the centre are tested against the segment between two neighbouring points", ci.node)
        for nm in ('start_point', 'end_point'):
            w = {f: div(sub(fld(A, nm, f), fld(A, 'center', f)), rad) for f in 'xy'}
            w2 = {f: sub(fld(A, nm, f), fld(A, 'center', f)) for f in 'xy'}
            if all(equal(fld(d, f), w[f]) for f in 'xy') or all(equal(fld(d, f), w2[f]) for f in 'xy'):
                if nm == 'start_point': seen_s = True
                else: seen_e = True
    cx.ob(seen_s and seen_e, 'slice-rays', fn, "segments are tested against the rays from the centre through the arc's start and end")
    nt = 0
    for s, v in true_paths(outs):
        nt += 1
        # crossing count
        pass
    cx.need(nt, 1, 'accepting paths of the slice test')


def idx_key(v): return norm.R(idx_of_val(v)) if idx_of_val(v)[0] != '?' else v


def samexy(cx, a, b): return all(equal(fld(a, f), fld(b, f)) for f in 'xy')


def polar(cx):
    fn = cx.p.find(POLAR)
    E, outs = paths(cx, fn)
    c, p = fld(('init', ('this', 'circle')), 'center'), ('init', ('param', '#0'))
    at = call('atan2', sub(fld(p, 'y'), fld(c, 'y')), sub(fld(p, 'x'), fld(c, 'x')))
    n = 0
    for k, s, v in outs:
        if k != 'R' or contradictory(s): continue
        n += 1
        want = ('ite', lt(at, C(0)), add(at, C(2 * PI)), at)
        cx.same(retval(s, v), want, 'polar', fn, 'the angle of a point is measured around the centre, between 0 and a full turn', s.facts)
    cx.need(n, 1, 'paths of the angle')


@rule('P04', DOM + "Must-pass analysis of every path that accepts an arc: which predicates succeeded, on which object, with which parameters; the loops of the deviation tests are checked by an inductive argument per index (obligation at every back edge, index range at the exit) so that every point, segment and Z step is covered; conditions are decided by linear arithmetic entailment from the path's branch facts.")
def p04(cx):
    circle3(cx, P5=False)
    fit_loop(cx)
    deviation(cx, cx.p.find(OVER), False)
    deviation(cx, cx.p.find(DEVSQ), True)
    arc_checks(cx)
    create_points(cx, 'P04')
    slice_checks(cx)
    polar(cx)


# ------------------------------------------------------------------ P06, P08, P09: adding a point
GLEN = 'segmented_arc::get_shape_gcode_length'
SG = ('this', 'segmented_arc')
KEPT = ('points_', 'original_shape_length_', 'e_relative_', 'is_shape_', 'current_arc_')


def i0(f): return sel(('init', SG), f)


def f1(s, f): return s.load(SG, (f,))


def add_internal(cx):
    fn = cx.p.find(INTERNAL)
    tgt = None

    def oc(E, s, ci):
        r = seq_call(E, s, ci)
        if r: return r
        if ci.q == TCA and len(ci.args) == 10:
            def mk(t, ci, b):
                t.mon = t.mon + ((b, tuple(ci.args), f1(t, 'points_')),)
                if b:
                    l = ci.lvs[refs(ci.targets[0])[-1]]
                    t.store(l.root, l.path, ('made', TCA, len(t.mon)))
            return fork_call(mk)(E, s, ci)
        if ci.q == GLEN: return [(s, ('gcodelen', f1(s, 'current_arc_'), f1(s, 'e_relative_')))]
        return None
    E, outs = epaths(cx, fn, opaque={TCA, GLEN}, pure={'utilities::floor', 'utilities::ceil'}, on_call=oc)
    return fn, outs


def nofloor(t):
    """(int)floor(x) < k  <=>  x < k for an integer k"""
    m = {}
    for x in subterms(t):
        y = x
        while y[0] == 'cast': y = y[-1]
        if y[0] == 'op' and len(y) == 3 and str(y[1]).startswith('(int'): y = y[2]
        if y[0] == 'call' and y[1] in ('utilities::floor', 'floor', 'std::floor'): m[x] = y[2][0]
    t2 = norm.subst(t, m) if m else t
    return t2


def comp_cond(arc_, length):
    cir = mul(C(2 * PI), fld(arc_, 'radius'))
    mn, mm = i0('min_arc_segments_'), i0('mm_per_arc_segment_')
    return AND(AND(lt(C(0), mn), lt(C(0), mm)), AND(lt(div(cir, mm), mn), lt(div(cir, length), mn)))


def refused(cx, pid):
    fn, outs = add_internal(cx)
    P = arg(0)
    n = m = 0
    want = dict(points_=('push', i0('points_'), P))
    newlen, newe = add(i0('original_shape_length_'), fld(P, 'distance')), add(i0('e_relative_'), fld(P, 'e_relative'))
    for k, s, v in outs:
        if k != 'R': continue
        v = retval(s, v)
        for b in (True, False):
            if is_c(v) and bool(v[1]) != b: continue
            S = s.copy()
            if not S.assume(tr(v), b) or contradictory(S): continue
            made = [e for e in S.mon if e[0]]
            if not b:
                n += 1
                if pid == 'P06':
                    for f in KEPT:
                        a = resolve(S, f1(S, f))
                        if f == 'is_shape_' and not is_c(a) and a != i0(f): pass
                        if a == i0(f): cx.ob(True, 'kept-' + f, fn, 'a refused point leaves %s as it was' % f); continue
                        if f in ('points_', 'current_arc_'): cx.ob(False, 'kept-' + f, fn, 'a refused point leaves %s as it was' % f, detail=show(a))
                        else: cx.same(a, i0(f), 'kept-' + f, fn, 'a refused point leaves %s as it was' % f, S.facts)
            else:
                m += 1
                if pid == 'P06':
                    cx.ob(f1(S, 'points_') == want['points_'], 'added-point', fn, 'an accepted point is appended to the points of the arc', detail=show(f1(S, 'points_')))
                    cx.same(f1(S, 'original_shape_length_'), newlen, 'added-length', fn, 'the length of an accepted move is added to the original length', S.facts)
                    cx.same(f1(S, 'e_relative_'), newe, 'added-extrusion', fn, 'the extrusion of an accepted move is added to that of the arc', S.facts)
                    cx.ob(bool(made) and f1(S, 'current_arc_') == ('made', TCA, S.mon.index(made[-1]) + 1), 'accepted-fit', fn, 'an accepted arc is the one fitted to its points', detail=show(f1(S, 'current_arc_')))
                    cx.ob(entails(S, f1(S, 'is_shape_')), 'accepted-shape', fn, 'a fitted arc counts as one')
            F = Facts({(nofloor(k_) if k_[0] != 'val' else k_): x for k_, x in S.facts.items()})
            if made:
                arc_ = ('made', TCA, S.mon.index(made[-1]) + 1)
                comp = comp_cond(arc_, newlen)
                toolong = AND(lt(C(0), i0('max_gcode_length_')), lt(i0('max_gcode_length_'), ('gcodelen', arc_, newe)))
                toolong2 = AND(lt(C(0), i0('max_gcode_length_')), lt(i0('max_gcode_length_'), ('gcodelen', arc_, add(fld(P, 'e_relative'), i0('e_relative_')))))
                tl = canon_len(S, arc_, newe, toolong)
                ij = AND(lt(absv(sub(fld(arc_, 'center', 'x'), fld(arc_, 'start_point', 'x'))), i0('xyz_tolerance_')), lt(absv(sub(fld(arc_, 'center', 'y'), fld(arc_, 'start_point', 'y'))), i0('xyz_tolerance_')))
                short = lt(fld(arc_, 'length'), i0('xyz_tolerance_'))
                if b and pid == 'P09':
                    cx.ob(entails(F, NOT(comp), 4), 'compensated', fn, 'with firmware compensation an arc is accepted only if its circle, or its own length, gives the minimum number of segments')
                    cx.ob(entails(F, NOT(ij), 4), 'zero-offset', fn, 'an arc with I and J both zero is refused')
                    cx.ob(entails(F, NOT(short)), 'too-short', fn, 'an arc shorter than the coordinate tolerance is refused')
                if b and pid == 'P08':
                    cx.ob(entails(F, NOT(tl)), 'too-long', fn, 'with a maximum g-code length an arc is accepted only if its line is not longer')
                if pid == 'P09': counted(cx, fn, S, F, 'num_firmware_compensations_', comp, 'firmware compensation')
                if pid == 'P08': counted(cx, fn, S, F, 'num_gcode_length_exceptions_', tl, 'the maximum g-code length')
    cx.need(n, 2, 'paths that refuse a point')
    cx.need(m, 1, 'paths that accept a point')


def canon_len(S, arc_, newe, dflt):
    """the length computed for the fitted arc with the new extrusion"""
    for t in S.facts:
        if t[0] == 'val': continue
        for x in subterms(t):
            if x[0] == 'gcodelen' and x[1] == arc_ and equal(x[2], newe):
                return AND(lt(C(0), i0('max_gcode_length_')), lt(i0('max_gcode_length_'), x))
    return dflt


def counted(cx, fn, S, F, f, cond, what):
    d = const_delta(resolve(S, f1(S, f)), i0(f))
    if d == 1: cx.ob(entails(F, cond, 4), 'counted', fn, 'an arc is counted as refused for %s only if it is' % what)
    elif d == 0: cx.ob(entails(F, NOT(cond), 4), 'counted', fn, 'every arc refused for %s is counted' % what)
    else: cx.ob(False, 'counted', fn, 'an arc refused for %s is counted once' % what, detail=show(f1(S, f)))


def fit_args(cx, pid):
    """the arc is fitted to the points with the configured limits"""
    fn, outs = add_internal(cx)
    P = arg(0)
    p10 = cx.p.find(TCA, 10)
    want = dict(points=('push', i0('points_'), P), approximate_length=add(i0('original_shape_length_'), fld(P, 'distance')), max_radius_mm=i0('max_radius_mm_'), resolution_mm=i0('resolution_mm_'),
                path_tolerance_percent=i0('path_tolerance_percent_'), xyz_tolerance=i0('xyz_tolerance_'), allow_3d_arcs=i0('allow_3d_arcs_'))
    seen = set()
    for k, s, v in outs:
        for e in s.mon:
            if e[1] in seen: continue
            seen.add(e[1])
            order = ['points', None, 'approximate_length', 'max_radius_mm', 'resolution_mm', 'path_tolerance_percent', None, None, 'xyz_tolerance', 'allow_3d_arcs']
            for i, nm in enumerate(order):
                if nm is None: continue
                w = want[nm]
                if nm == 'points': cx.ob(e[1][i] == w, 'fit-points', fn, 'the arc is fitted to all its points including the new one', detail=show(e[1][i]))
                else: cx.same(e[1][i], w, 'fit-' + nm.replace('_', '-'), fn, 'the arc is fitted with %s' % nm.replace('_', ' '))
    cx.need(len(seen), 1, 'arc fits')


def add_outer(cx, pid):
    """segmented_arc::try_add_point"""
    fn = cx.p.find(TRYADD)
    P = arg(0)

    def oc(E, s, ci):
        r = seq_call(E, s, ci)
        if r: return r
        if ci.q in (INTERNAL, TRYADD):
            before = tuple(f1(s, f) for f in KEPT)
            def mk(t, ci, b):
                t.mon = t.mon + ((ci.q, b, before, ci.args[0]),)
                if b:
                    for f in KEPT: t.store(SG, (f,), ('after', ci.q, f))
                elif ci.q == TRYADD:
                    for f in KEPT: t.store(SG, (f,), ('shifted', f))
            return fork_call(mk)(E, s, ci)
        return None
    E, outs = epaths(cx, fn, opaque={INTERNAL, TRYADD}, on_call=oc)
    n = 0
    cnt0 = seqn(i0('points_'))
    for k, s, v in outs:
        if k != 'R': continue
        v = retval(s, v)
        for b in (True, False):
            if is_c(v) and bool(v[1]) != b: continue
            S = s.copy()
            S.facts[lt(cnt0, C(0))] = False
            if not S.assume(tr(v), b) or contradictory(S): continue
            n += 1
            rec = [e for e in S.mon if e[0] == TRYADD]
            inn = [e for e in S.mon if e[0] == INTERNAL]
            minseg = i0('min_segments_')
            for e in rec:
                cx.ob(equal_pt(e[3], P), 'retry-point', fn, 'the point is offered again unchanged', detail=show(e[3]))
                pf = ('popf', i0('points_'))
                head = seqget(pf, C(0))
                okp = e[2][0] == pf
                cx.ob(okp, 'drop-front', fn, 'before a retry exactly the first point is dropped', detail=show(e[2][0]))
                if okp:
                    cx.same(e[2][1], sub(i0('original_shape_length_'), fld(head, 'distance')), 'drop-length', fn, 'the length of the dropped move is taken off the original length', S.facts)
                    cx.same(e[2][2], sub(i0('e_relative_'), fld(head, 'e_relative')), 'drop-extrusion', fn, "the dropped move's extrusion is taken off the arc's", S.facts)
                F = Facts(S.facts)
                cx.ob(entails(F, lt(cnt0, minseg)), 'drop-only-short', fn, 'points are dropped only while they are too few to be an arc')
            for e in inn:
                cx.ob(equal_pt(e[3], P), 'offered-point', fn, 'the point is offered unchanged', detail=show(e[3]))
                for i, f in enumerate(KEPT):
                    if e[2][i] != i0(f): cx.ob(False, 'offered-state', fn, 'the fit is tried on the arc as it is', detail='%s: %s' % (f, show(e[2][i])))
            if rec: continue
            if inn and inn[-1][1]:
                cx.ob(b, 'result', fn, 'a fitted point is reported as added'); continue
            if b:
                # added without a check
                cx.ob(entails(S, lt(cnt0, add(minseg, C(-1)))), 'unchecked-few', fn, 'a point is added without fitting only while the points are too few to be an arc')
                cx.ob(f1(S, 'points_') == ('push', i0('points_'), P), 'few-point', fn, 'the point is appended', detail=show(f1(S, 'points_')))
                cx.same(f1(S, 'original_shape_length_'), add(i0('original_shape_length_'), fld(P, 'distance')), 'few-length', fn, 'the length of the move is added to the original length', S.facts)
                first = NOT(lt(C(0), cnt0))
                if entails(S, first) : cx.same(f1(S, 'e_relative_'), i0('e_relative_'), 'few-extrusion', fn, 'the extrusion of the first point is not part of the arc', S.facts)
                elif entails(S, NOT(first)): cx.same(f1(S, 'e_relative_'), add(i0('e_relative_'), fld(P, 'e_relative')), 'few-extrusion', fn, 'the extrusion of the move is added to that of the arc', S.facts)
                else: cx.ob(False, 'few-extrusion', fn, "the first point's extrusion is not part of the arc, that of later ones is")
                cx.ob(f1(S, 'is_shape_') == i0('is_shape_'), 'few-shape', fn, 'too few points are not an arc')
            else:
                for f in KEPT:
                    cx.ob(f1(S, f) == i0(f), 'kept-' + f, fn, 'a refused point leaves %s as it was' % f, detail=show(f1(S, f)))
                cx.ob(not entails(S, lt(cnt0, C(1))) or bool(inn), 'first-point', fn, 'the first point is never refused')
    cx.need(n, 4, 'paths of adding a point')


def equal_pt(a, b): return a == b or all(equal(fld(a, f), fld(b, f)) for f in ('x', 'y', 'z', 'e_relative', 'distance', 'f', 'e_offset', 'is_extruder_relative'))


def cleared(cx):
    fn = cx.p.find('segmented_shape::clear')
    E, outs = paths(cx, fn, on_call=seq_call)
    R = ('this', 'segmented_shape')
    n = 0
    for k, s, v in outs:
        n += 1
        cx.ob(s.load(R, ('points_',)) == EMPTY, 'clear-points', fn, 'clearing drops every point', detail=show(s.load(R, ('points_',))))
        cx.ob(is_c(s.load(R, ('is_shape_',))) and not s.load(R, ('is_shape_',))[1], 'clear-shape', fn, 'a cleared arc is no arc')
        for f in ('e_relative_', 'original_shape_length_'):
            cx.same(s.load(R, (f,)), C(0), 'clear-' + f, fn, 'clearing resets %s' % f)
    cx.need(n, 1, 'paths of clear')


def fit_rollback(cx):
    """a failed fit leaves its target alone"""
    B_ = Built(cx)
    fn = B_.fn
    tgt = pidx(fn, ty='arc &')
    n = 0
    for k, s, v in B_.outs:
        if k != 'R': continue
        v = retval(s, v)
        S = s.copy()
        if is_c(v) and v[1] or not S.assume(tr(v), False): continue
        n += 1
        # harmless when every caller restores it: checked in add_internal through the copy
        cx.ob(out_of(S, tgt) == ('init', ('param', '#%d' % tgt)), 'failed-fit', fn, 'a failed fit leaves the arc fitted before unchanged', detail=show(out_of(S, tgt)))
    cx.need(n, 1, 'failing paths of the arc fit')


SHAPE_W = ('segmented_shape::set_is_shape',)


def shape_writes(cx):
    """nobody else declares an arc to be one"""
    n = 0
    for f in cx.p.funcs.values():
        if not f.get('b'): continue
        for c in calls(f['b']):
            if c.get('f') in SHAPE_W:
                n += 1
                a = c.get('a') or []
                cx.ob(f['q'].startswith('segmented_'), 'shape-writers', f, 'only the arc itself decides that it is one', c)
    cx.need(n, 1, 'places that set the shape flag')


@rule('P06', DOM + "Adding a point is analysed per path with a sequence model of the point list: on every refusing path the fields of the arc must have the terms they had on entry; on every accepting path they must be the entry terms extended by exactly the new point.")
def p06(cx):
    refused(cx, 'P06')
    add_outer(cx, 'P06')
    cleared(cx)
    fit_rollback(cx)
    shape_writes(cx)


@rule('P09', DOM + "Every accepting path of the point test must entail, by linear arithmetic from its branch facts, that the arc is not too coarse for the firmware, not without offset and not shorter than the tolerance; the counter is checked per path.")
def p09(cx):
    refused(cx, 'P09')


# ------------------------------------------------------------------ P07, P08: the text of the arc
def shape_conds():
    A = i0('current_arc_')
    e = ('ite', fld(A, 'end_point', 'is_extruder_relative'), i0('e_relative_'), fld(A, 'end_point', 'e_offset'))
    has_e = NOT(eq(i0('e_relative_'), C(0)))
    fe, fs = fld(A, 'end_point', 'f'), fld(A, 'start_point', 'f')
    has_z = AND(i0('allow_3d_arcs_'), NOT(lt(absv(sub(fld(A, 'start_point', 'z'), fld(A, 'end_point', 'z'))), i0('xyz_tolerance_'))))
    has_f = AND(NOT(eq(fs, fe)), NOT(lt(fe, C(1))))
    return A, e, has_e, has_z, has_f


def text_rule(cx):
    fn = cx.p.find('segmented_arc::get_shape_gcode')
    E, outs = paths(cx, fn, pure={'utilities::dtos'})
    A, e, has_e, has_z, has_f = shape_conds()
    xp, ep = i0('xyz_precision_'), i0('e_precision_')
    d = lambda x, p: call('utilities::dtos', x, p)
    n = 0
    for k, s, v in outs:
        if k != 'R' or contradictory(s): continue
        v = retval(s, v)
        for S in cases(s, [eq(fld(A, 'start_point', 'f'), fld(A, 'end_point', 'f')), fld(A, 'end_point', 'is_extruder_relative')]):
          for cs, x in split_cases(resolve(S, v)):
            S = S.copy()
            if not all(S.assume(a, b) for a, b in cs) or contradictory(S): continue
            n += 1
            x = resolve(S, x)
            parts = text_parts(x)
            cmd, words = parts
            cw = lt(fld(A, 'angle_radians'), C(0))
            cx.ob(cmd == 'G2' and entails(S, cw) or cmd == 'G3' and entails(S, NOT(cw)), 'direction', fn, 'the command is G2 exactly for a clockwise (negative) angle and G3 otherwise', detail=show(x)[:300])
            letters = [w[0] for w in words]
            cx.ob(len(letters) == len(set(letters)), 'once', fn, 'every parameter appears once', detail=''.join(letters))
            vals = dict(words)
            want = dict(X=d(fld(A, 'end_point', 'x'), xp), Y=d(fld(A, 'end_point', 'y'), xp), I=d(sub(fld(A, 'center', 'x'), fld(A, 'start_point', 'x')), xp), J=d(sub(fld(A, 'center', 'y'), fld(A, 'start_point', 'y')), xp))
            for l in 'XYIJ':
                if l not in vals: cx.ob(False, 'missing-' + l, fn, '%s is always written' % l, detail=show(x)[:300])
                else: fmt(cx, fn, S, l, vals[l], want[l])
            for l, cond, w, what in (('Z', has_z, d(fld(A, 'end_point', 'z'), xp), 'exactly when 3D arcs are allowed and Z changes'), ('E', has_e, None, 'exactly when the arc extrudes or retracts'), ('F', has_f, d(fld(A, 'end_point', 'f'), C(0)), "exactly when the feed rate differs from the start's")):
                here = l in vals
                if l == 'F': ok = entails(S, AND(NOT(eq(fld(A, 'end_point', 'f'), fld(A, 'start_point', 'f'))), lt(C(0.99), fld(A, 'end_point', 'f'))) if here else NOT(AND(NOT(eq(fld(A, 'end_point', 'f'), fld(A, 'start_point', 'f'))), lt(C(1), fld(A, 'end_point', 'f')))))
                else: ok = entails(S, cond if here else NOT(cond), 4)
                cx.ob(ok, 'when-' + l, fn, '%s is written %s' % (l, what), detail=('written: ' if here else 'not written: ') + show(x)[:200])
                if here and w is not None: fmt(cx, fn, S, l, vals[l], w)
                if here and l == 'E':
                    for rel in (True, False):
                        T = S.copy()
                        if not T.assume(fld(A, 'end_point', 'is_extruder_relative'), rel): continue
                        fmt(cx, fn, T, 'E', resolve(T, vals[l]), d(i0('e_relative_') if rel else fld(A, 'end_point', 'e_offset'), ep))
            cx.ob(set(letters) <= set('XYZIJEF'), 'others', fn, 'nothing else is written', detail=''.join(letters))
    cx.need(n, 4, 'forms of the arc line')


def fmt(cx, fn, S, l, got, want):
    ok = got[0] == 'call' and got[1] == want[1] and equal_in(S, got[2][0], want[2][0]) and equal(got[2][1], want[2][1])
    if ok or got[0] == 'call' and got[1] == want[1]: cx.ob(ok, 'value-' + l, fn, 'the value of %s is formatted with its precision' % l, detail='found %s, expected %s' % (show(got), show(want)))
    else: cx.same(got, want, 'value-' + l, fn, 'the value of %s is formatted with its precision' % l, S.facts)


def equal_in(S, a, b):
    return equal(a, b) or pit.witness(resolve(S, a), resolve(S, b), S.facts, tries=60, seed=1) is None


def text_parts(x):
    """('G2', [(letter, value term)])"""
    items = flat_cat(x)
    out, cmd, cur = [], None, ''
    for it in items:
        if is_c(it) and isinstance(it[1], str): cur += it[1]
        elif is_c(it) and isinstance(it[1], int): cur += chr(it[1])
        else:
            cmd, cur = take(cmd, cur, out, it)
    if cur: take(cmd, cur, out, None)
    if out and out[0][0] == 'cmd': cmd = out.pop(0)[1]
    return cmd, out


def take(cmd, cur, out, val):
    ws = cur.split(' ')
    for w in ws[:-1]:
        if w: out.append(('cmd', w) if not out else (w[0], C(w[1:])))
    if val is None:
        if ws[-1]: out.append(('cmd', ws[-1]) if not out else (ws[-1][0], C(ws[-1][1:])))
    else: out.append((ws[-1], val) if len(ws[-1]) == 1 else ('?' + ws[-1], val))
    return cmd, ''


def flat_cat(x):
    if x[0] == 'cat': return [z for y in x[1:] for z in (flat_cat(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else [w for q in y for w in flat_cat(q)])]
    return [x]


@rule('P07', DOM + "The string term of the arc line is computed for every path and read as command and parameters; presence conditions are decided by entailment from the path facts in both directions, values are compared as terms.")
def p07(cx):
    text_rule(cx)


def length_rule(cx):
    fn = cx.p.find(GLEN)
    DIG = 'utilities::get_num_digits'
    E = Engine(cx.p, pure={DIG}, gate=True)
    outs = E.run(fn)
    cx.funcs.add(fn['q'])
    A, e, has_e, has_z, has_f = shape_conds()
    xp, ep = i0('xyz_precision_'), i0('e_precision_')
    dig = lambda x, p: call(DIG, x, p)
    pos = lambda x: ('ite', lt(x, C(0)), C(1), C(0))
    I, J = sub(fld(A, 'center', 'x'), fld(A, 'start_point', 'x')), sub(fld(A, 'center', 'y'), fld(A, 'start_point', 'y'))
    n = 0
    from itertools import product
    for k, s, v in outs:
        if k != 'R': continue
        v = retval(s, v)
        for z, ee, ff, rel in product((True, False), repeat=4):
            S = s.copy()
            cond = [(has_z, z), (has_e, ee), (has_f, ff), (fld(A, 'end_point', 'is_extruder_relative'), rel)]
            ok = True
            for c, b in cond: ok = ok and S.assume(c, b)
            S = settle(S) if ok else None
            if S is None or contradictory(S): continue
            E_ = i0('e_relative_') if rel else fld(A, 'end_point', 'e_offset')
            X, Y, Z, F_ = fld(A, 'end_point', 'x'), fld(A, 'end_point', 'y'), fld(A, 'end_point', 'z'), fld(A, 'end_point', 'f')
            coords = [(X, xp), (Y, xp), (I, xp), (J, xp)] + ([(Z, xp)] if z else []) + ([(E_, ep)] if ee else [])
            want = C(2)
            for x, p in coords:
                want = add(want, add(add(C(3), p), add(dig(x, p), pos(x))))
            if ff: want = add(want, add(C(2), dig(F_, C(0))))
            got = decide(S, v)
            n += 1
            lin_same(cx, S, got, want, 'line-length', fn, 'the computed length of the line is that of its text (Z %s, E %s, F %s, %s extrusion)' % tuple('yes' if q else 'no' for q in (z, ee, ff)) if False else 'the computed length of the line counts every part of its text (Z %d E %d F %d relative %d)' % (z, ee, ff, rel))
    cx.need(n, 8, 'forms of the line length')


def decide(S, t):
    """conditional parts decided by entailment from the facts"""
    t = resolve(S, t)
    for _ in range(40):
        c = next((x[1] for x in subterms(t) if x[0] == 'ite' and not any(y[0] == 'ite' for y in subterms(x[1]))), None)
        if c is None: return t
        if entails(S, c, 4): t = pick(t, c, True)
        elif entails(S, NOT(c), 4): t = pick(t, c, False)
        else:
            # keep undecided conditionals out of the way
            m = {x: ('iteX',) + x[1:] for x in subterms(t) if x[0] == 'ite' and x[1] == c}
            t = norm.subst(t, m)
    return t


def back(t):
    if not isinstance(t, tuple): return t
    r = tuple(back(x) for x in t)
    return ('ite',) + r[1:] if r and r[0] == 'iteX' else r


def lin_same(cx, S, got, want, code, fn, msg):
    cx.same(back(got), want, code, fn, msg, S.facts)


@rule('P08', DOM + "The computed length is compared, for every combination of the conditions under which parameters are written, with the length of the text as a linear term over digit counts, signs and precisions; the refusal is decided per path of the point test.")
def p08(cx):
    refused(cx, 'P08')
    length_rule(cx)
