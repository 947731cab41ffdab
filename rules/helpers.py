from ._lib import *

U = 'utilities::'


def value(cx, q, n, spec, what, boolean=False, tol=None):
    """the helper's result equals spec on every path"""
    fn = cx.p.find(U + q, n)
    E, outs = paths(cx, fn)
    done = 0
    for k, s, v in outs:
        if k != 'R':
            continue
        v = retval(s, v)
        f = facts_of(s)
        if any(y[0] in ('phi',) for y in subterms(v)):
            cx.undecided.append(('loop', q, '', '')); done += 1; continue
        if boolean:
            r = equivalent(truth(v), spec, f)
            cx.ob(r is not False and not (isinstance(r, tuple)), 'helper-' + q, fn, what, detail=None if not isinstance(r, tuple) else 'returns %s for the ordering %s' % (show(v), r[1]))
        else:
            cx.same(v, spec, 'helper-' + q, fn, what, dict(f), tries=120)
        done += 1
    cx.need(done, 1, 'paths of ' + q)
    return fn


def tolerance(cx):
    """the built-in tolerance, read off the two-argument equality"""
    fn = cx.p.find(U + 'is_equal', 2)
    _, outs = paths(cx, fn)
    cs = set()
    for k, s, v in outs:
        for t in [retval(s, v)] + [t for t, _ in facts_of(s)]:
            for x in subterms(t):
                if x[0] == 'c' and isinstance(x[1], float) and x[1] > 0: cs.add(x[1])
    return fn, cs


@rule('P37', DOM + "Each comparison helper's result condition is compared with its definition in every ordering of the compared quantities (sign enumeration with polyhedral feasibility); each distance, rounding and clamping helper's result term must equal its definition in the rational-function normal form.")
def p37(cx):
    x, y, t = arg(0), arg(1), arg(2)
    fn, cs = tolerance(cx)
    cx.need(len(cs), 1, 'built-in tolerance')
    T = C(max(cs))
    cx.ob(0 < T[1] <= 1e-5, 'tolerance-size', fn, 'the built-in tolerance is positive and below the resolution of written coordinates (found %r)' % T[1])
    d = absv(sub(x, y))
    for n, tt in ((2, T), (3, t)):
        e = lt(d, tt)
        value(cx, 'is_equal', n, e, '|x-y| < tolerance', True)
        value(cx, 'greater_than', n, AND(lt(y, x), NOT(e)), 'x > y and not equal', True)
        value(cx, 'greater_than_or_equal', n, OR(lt(y, x), e), 'x > y or equal', True)
        value(cx, 'less_than', n, AND(lt(x, y), NOT(e)), 'x < y and not equal', True)
        value(cx, 'less_than_or_equal', n, OR(lt(x, y), e), 'x < y or equal', True)
    value(cx, 'is_zero', 1, lt(absv(x), T), '|x| < tolerance', True)
    value(cx, 'is_zero', 2, lt(absv(x), y), '|x| < tolerance', True)
    a = [arg(i) for i in range(10)]
    sq = lambda v: mul(v, v)
    value(cx, 'get_cartesian_distance', 4, sqrt(add(sq(sub(a[0], a[2])), sq(sub(a[1], a[3])))), 'distance in the plane')
    value(cx, 'get_cartesian_distance', 6, sqrt(add(add(sq(sub(a[0], a[3])), sq(sub(a[1], a[4]))), sq(sub(a[2], a[5])))), 'distance in space')
    for q in ('hypot', 'hypotf'):
        value(cx, q, 2, sqrt(add(sq(x), sq(y))), 'length of (x, y)')
    for q, f in (('atan2', 'atan2'), ('atan2f', 'atan2')):
        value(cx, q, 2, call(f, x, y), 'angle of (x=second, y=first)')
    for q, f in (('floor', 'floor'), ('floorf', 'floor'), ('ceil', 'ceil'), ('cos', 'cos'), ('cosf', 'cos'), ('sin', 'sin'), ('sinf', 'sin'), ('sqrt', 'sqrt'), ('sqrtf', 'sqrt')):
        if cx.p.by_q.get(U + q): value(cx, q, 1, call(f, x), q + ' of the argument')
    for q in ('abs', 'absf', 'min', 'max', 'pow'):
        for fn in cx.p.by_q.get(U + q, []):
            helper_each(cx, fn, q)
    for fn in cx.p.by_q.get(U + 'get_percent_change', []):
        E, outs = paths(cx, fn)
        for k, s, v in outs:
            scale = C(100.0) if 'int' in fn['p'][0]['ty'] else C(1.0)
            z = Facts(s.facts).holds(B(eq(x, C(0))))
            if z: cx.same(v, C(0), 'helper-percent', fn, 'no change from zero', s.facts)
            else: cx.same(v, mul(div(sub(y, x), x), scale), 'helper-percent', fn, '(new-old)/old', s.facts)
    arc_distance(cx)
    digits(cx)


def helper_each(cx, fn, q):
    fn = cx.p.funcs[fn] if isinstance(fn, str) else fn
    x, y = arg(0), arg(1)
    E, outs = paths(cx, fn)
    spec = {'abs': absv(x), 'absf': absv(x), 'min': call('min', x, y), 'max': call('max', x, y), 'pow': call('pow', x, y)}[q]
    for k, s, v in outs:
        v = retval(s, v)
        if any(z[0] == 'phi' for z in subterms(v)): continue
        cx.same(v, spec, 'helper-' + q, fn, 'computes ' + q, s.facts, tries=120)


def arc_distance(cx):
    """length of a helical arc: |angle| * radius combined with the rise; angle from start to end about start + (I, J)"""
    fn = cx.p.find(U + 'get_arc_distance', 10)
    x1, y1, z1, x2, y2, z2, i, j, r, cw = [arg(k) for k in range(10)]
    E, outs = paths(cx, fn, pure={U + 'hypot', U + 'atan2'})
    rx, ry = sub(x2, add(x1, i)), sub(y2, add(y1, j))
    a0 = call(U + 'atan2', sub(mul(j, rx), mul(i, ry)), sub(neg(mul(i, rx)), mul(j, ry)))
    tp = C(2 * 3.14159265358979323846)
    rad = call(U + 'hypot', i, j)
    n = 0
    for k, s, v in outs:
        F = Facts(s.facts)
        if F.bad: continue
        n += 1
        ng = F.holds(B(lt(a0, C(0))))
        c = F.holds(B(truth(cw, 'bool')))
        a = a0
        if ng: a = add(a, tp)
        if c: a = sub(a, tp)
        same_pt = F.holds(B(AND(eq(x1, x2), eq(y1, y2))))
        zero = F.holds(B(eq(a, C(0))))
        alts = [a] if same_pt is False or zero is False else [a, add(a, tp)] if not (same_pt and zero) else [add(a, tp)]
        okd = [mul(call('hypot', mul(q, rad), sub(z2, z1)), C(1.0)) for q in alts]
        okd += [call(U + 'hypot', mul(q, rad), absv(sub(z2, z1))) for q in alts]
        if ng is None or c is None:
            # written without that branch: cannot be related path by path
            cx.undecided.append(('arc-distance', fn['q'], show(v)[:200], '')); continue
        good = any(equal(inl(v), inl(w)) for w in okd) or any(pit.witness(inl(v), inl(w), s.facts, tries=80) is None for w in okd)
        cx.ob(good, 'arc-length', fn, 'arc length is the hypotenuse of angle*radius and rise, with the angle measured about start+(I,J), negative direction for clockwise, a full turn for coinciding ends',
              detail=None if good else 'found %s\nexpected %s' % (show(v), show(okd[0])))
    cx.need(n, 2, 'paths of get_arc_distance')


def inl(t):
    """hypot as sqrt of squares"""
    if not isinstance(t, tuple): return t
    if t[0] == 'call' and t[1] in (U + 'hypot', 'hypot'):
        a, b = inl(t[2][0]), inl(t[2][1])
        if b[0] == 'call' and norm.SYN.get(b[1]) == 'abs': b = b[2][0]
        return sqrt(add(mul(a, a), mul(b, b)))
    return tuple(inl(x) if isinstance(x, tuple) else x for x in t)


def digits(cx):
    for fn in cx.p.find(U + 'get_num_digits', 1, many=True):
        if fn['p'][0]['ty'] != 'int': continue
        E, outs = paths(cx, fn)
        x = arg(0)
        cases = []
        for k, s, v in outs:
            try:
                for cs, w in split_cases(v): cases.append((facts_of(s) + cs, w))
            except ValueError:
                return
        for f, w in cases:
            if not is_c(w): cx.undecided.append(('digits', fn['q'], show(w), '')); continue
            F = Facts()
            for t, b in f: F.add(B(t) if b else norm.bnot(B(t)))
            for _ in range(3): F.prop()
            if F.bad: continue
            n = w[1]
            A_ = absv(x)
            intmax = F.holds(B(lt(A_, C(1e9)))) is False
            if n == -1 and F.holds(B(lt(A_, C(2**31)))) is False: continue
            hi = F.holds(B(lt(A_, C(10 ** max(n, 0))))) or (n == 10 and intmax)
            lo = n == 1 or F.holds(B(lt(A_, C(10 ** (n - 1))))) is False
            cx.ob(bool(hi and lo) or n == -1 and intmax, 'digit-count', fn, '%d digits are reported exactly for 10^%d <= |x| < 10^%d' % (n, n - 1, n), detail='; '.join(('' if b else 'not ') + show(t) for t, b in f))
