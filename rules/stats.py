"""P14: the statistics of the welder."""
from ._lib import *
from .welder import *
from .welder import Walk, Queue, posval, feasible_outs, infos
from sa.loops import resolve, closed
from sa import effects

MEM = {'segment_statistics_': 'extrusion', 'segment_retraction_statistics_': 'retraction', 'travel_statistics_': 'travel'}


def g(m, src): return ('ghost', 'stat', m, src)
def gl(m, src): return ('ghost', 'statlen', m, src)


def zero(s):
    for m in MEM:
        for b in (0, 1):
            s.env[g(m, b)] = C(0); s.env[gl(m, b)] = C(0)


def record(s, ci, note):
    m = ci.this.path[-1] if ci.this is not None and ci.this.path else None
    src = ci.args[1] if len(ci.args) > 1 else None
    if m not in MEM or not is_c(src):
        note(False, 'statistic-known', 'a statistic of the welder is updated as source or as target', ci.node, show(src) if src else None)
        return [(s, C(0))]
    b = int(bool(src[1]))
    s.env[g(m, b)] = add(s.env[g(m, b)], C(1))
    s.env[gl(m, b)] = ci.args[0]
    return [(s, C(0))]


class StatWalk(Walk):
    def start(self, s): zero(s)

    def stat(self, s, ci):
        self.cnt = getattr(self, 'cnt', 0) + 1
        return record(s, ci, lambda ok, c, m, n, d: self.note(ok, c, m, n, d, 'P14'))

    def call(self, E, s, ci):
        if ci.q == QPUSH and ci.this.path[-1:] == ('unwritten_commands_',): s.env[('ghost', 'queued')] = ci.args[0]
        if ci.q == PG: s.env[('ghost', 'again')] = C(1)
        return Walk.call(self, E, s, ci)


def one_of(v, opts): return any(equal(v, x) for x in opts)


def leaves(s, v):
    """(facts, value) of the feasible cases of a conditional value"""
    for cs, y in outer_cases(resolve(s, v)):
        F = Facts(s.facts)
        for c, b in cs: F.add(B(c) if b else norm.bnot(B(c)))
        if not norm.contradiction(F): yield F, y


def count_is(cx, s, root, want, code, fn, msg, what):
    for F, y in leaves(s, s.env.get(root, C(0))):
        if any(x[0] == 'join' for x in subterms(y)):
            cx.undecided.append((code, fn['q'], what, show(y)[:200])); continue
        if y != C(want):
            return cx.ob(False, code, fn, msg, detail='%s: updated %s times instead of %d' % (what, show(y), want))
    return cx.ob(True, code, fn, msg)


def outer_cases(t, conds=()):
    if t[0] == 'ite': return outer_cases(t[2], conds + ((t[1], True),)) + outer_cases(t[3], conds + ((t[1], False),))
    return [(conds, t)]


def source_side(cx):
    fn = cx.p.find(PG)
    n = m_ = 0
    for waiting, end in ((True, False), (False, False), (True, True)):
        wk = StatWalk(cx, waiting, end, False)
        m_ += getattr(wk, 'cnt', 0)
        for (r, code, l, msg), (ok, node, det) in wk.obs.items():
            if r == 'P14': cx.ob(ok, code, fn, msg, node, det)
        for k, s, v in wk.outs:
            if k != 'R' or contradictory(s): continue
            cur, pre = posval(s, None, CURP), posval(s, None, PREP)
            if cur is None:
                for t in list(s.env.values()):
                    cur = cur or posval(s, t, CURP); pre = pre or posval(s, t, PREP)
            if cur is None: raise AnalysisError('current position not found in process_gcode')
            H = truth(fld(cur, 'has_xy_position_changed'), 'bool')
            e = fld(call('position::get_current_extruder', cur), 'e_relative')
            Ep, En = lt(C(0), e), lt(e, C(0))
            u = wk.cmd
            is_ = lambda c: eq(fld(u, 'command'), C(c))
            g01, g23 = OR(is_('G0'), is_('G1')), OR(is_('G2'), is_('G3'))
            R = truth(wk.rep, 'bool')
            T = truth(wf(s, 'allow_travel_arcs_'), 'bool')
            lens = [x for m in MEM for x in [s.env.get(gl(m, 1))] if x is not None and x != C(0)]
            table = [('a line processed again', [(R, True)], None), ('a line that does not move', [(R, False), (H, False)], None),
                     ('an extrusion', [(R, False), (H, True), (Ep, True)], 'segment_statistics_'), ('a retraction', [(R, False), (H, True), (En, True)], 'segment_retraction_statistics_'),
                     ('a travel', [(R, False), (H, True), (Ep, False), (En, False), (T, True), (g01, True)], 'travel_statistics_'), ('a travel arc', [(R, False), (H, True), (Ep, False), (En, False), (T, True), (g23, True)], 'travel_statistics_'),
                     ('a travel while travel arcs are off', [(R, False), (H, True), (Ep, False), (En, False), (T, False)], None),
                     ('a line that is no move', [(R, False), (H, True), (Ep, False), (En, False), (g01, False), (g23, False)], None)]
            for what, conds, want in table:
                t = s.copy()
                ok = True
                for c, b in conds:
                    if not t.assume(c, b): ok = False; break
                if not ok: continue
                t = settle(t)
                if t is None or contradictory(t): continue
                n += 1
                for m, nm in MEM.items():
                    # an update without length is ignored by the statistic: only moves with length are counted there
                    length = resolve(t, t.env.get(gl(m, 1), C(0)))
                    w = 1 if m == want else 0
                    if w:
                        t2 = t.copy()
                        for c in positive(t): t2.assume(c, True)
                        t2 = settle(t2)
                        if t2 is None or contradictory(t2): continue
                        count_is(cx, t2, g(m, 1), 1, 'source-once', fn, 'each source move with length is added once to the source statistics of its kind', '%s (%s)' % (what, nm))
                        lw(cx, t2, length, cur, pre, g01, g23, fn, what)
                    else: count_is(cx, t, g(m, 1), 0, 'source-once', fn, 'each source move with length is added once to the source statistics of its kind', '%s (%s)' % (what, nm))
                    count_is(cx, t, g(m, 0), 0, 'target-when-written', fn, 'target statistics change only when lines or arcs are written', '%s (%s)' % (what, nm))
            queued(cx, s, fn, H, Ep, En, g01, g23, T, cur, pre)
            counters(cx, s, wk, fn)
    cx.need(n, 8, 'cases of the source statistics')
    cx.need(m_, 1, 'updates of source statistics')


def positive(s):
    """the tests 'length > 0' in the state"""
    out = {lt(C(0), L) for L in distances(s)}
    for t in list(s.facts) + [s.env[g(m, 1)] for m in MEM]:
        for x in subterms(t):
            if x[0] == 'op' and x[1] == '<' and x[2] == C(0) and any(is_dist(y) for y in subterms(x[3])): out.add(x)
    return out


def is_dist(x): return x[0] == 'call' and x[1] in ('utilities::get_cartesian_distance', 'utilities::get_arc_distance')


def distances(s):
    out = set()
    for t in list(s.facts) + [s.env.get(gl(m, 1), C(0)) for m in MEM]:
        for x in subterms(t):
            if is_dist(x): out.add(x)
    return out


def lw(cx, s, length, cur, pre, g01, g23, fn, what):
    """the length recorded is the distance between the previous and the current position"""
    for F, y in leaves(s, length):
        if any(x[0] == 'join' for x in subterms(y)): continue
        xs = [fld(p, f) for p in (pre, cur) for f in 'xyz']
        d3 = ('call', 'utilities::get_cartesian_distance', tuple(xs))
        d2 = ('call', 'utilities::get_cartesian_distance', (xs[0], xs[1], xs[3], xs[4]))
        if norm.entails(F, g23):
            ok = y[0] == 'call' and y[1] == 'utilities::get_arc_distance' and all(equal(a, b) for a, b in zip(y[2], xs)) and len(y[2]) >= 10
            cx.ob(ok, 'arc-length', fn, 'the length of a source arc is that of the arc from the previous to the current position', detail='%s: %s' % (what, show(y)))
            continue
        if norm.entails(F, g01) or norm.entails(F, NOT(g23)):
            cx.ob(y in (d2, d3), 'move-length', fn, 'the length of a source move is the distance from the previous to the current position', detail='%s: %s' % (what, show(y)))


def queued(cx, s, fn, H, Ep, En, g01, g23, T, cur, pre):
    """the entry queued for the line carries its kind and length for the target statistics"""
    if ('ghost', 'queued') not in s.env: return
    q = s.env[('ghost', 'queued')]
    for t in cases(s, [H, OR(g01, g23)]):
        if not t.holds(H) or not t.holds(OR(g01, g23)): continue
        L = resolve(t, fld(q, 'length'))
        lw(cx, t, L, cur, pre, g01, g23, fn, 'the entry queued for it')
        for f, want in (('is_extrusion', Ep), ('is_retraction', En)):
            r = equivalent(truth(resolve(t, fld(q, f)), 'bool'), want, facts_of(t))
            cx.ob(not isinstance(r, tuple) and r is not False, 'queued-kind', fn, 'the entry queued for a move is marked %s exactly when it is' % f[3:], detail=show(fld(q, f)))
        tv = truth(resolve(t, fld(q, 'is_travel')), 'bool')
        r = equivalent(tv, AND(NOT(Ep), NOT(En)), facts_of(t))
        cx.ob(not isinstance(r, tuple) and r is not False, 'queued-kind', fn, 'the entry queued for a move is marked travel exactly when it neither extrudes nor retracts', detail=show(tv))


def counters(cx, s, wk, fn):
    arc = 'arc' in s.mon[1]
    a0, p0 = ('fld', ('init', W.root), 'arcs_created_'), ('fld', ('init', W.root), 'points_compressed_')
    a, p_ = wf(s, 'arcs_created_'), wf(s, 'points_compressed_')
    if not arc:
        cx.same(a, a0, 'arcs-created', fn, 'the counter of arcs changes only when an arc is written')
        cx.same(p_, p0, 'points-compressed', fn, 'the counter of compressed points changes only when an arc is written')
    else:
        v = s.env.get(('ghost', 'arc'))
        cx.same(a, add(a0, C(1)), 'arcs-created', fn, 'each written arc is counted once')
        cx.same(p_, add(p0, sub(dist('nseg', v), C(1))), 'points-compressed', fn, "each written arc adds its segments to the compressed points")


def flush_side(cx):
    fn = cx.p.find(FLUSH)
    bad = []

    def extra(q, E, s, ci):
        if ci.q == STAT: return record(s, ci, lambda ok, c, m, n, d: bad.append((c, m, n, d)))
        if ci.q in (QPOPF, QPOPB): zero(s)
        return None
    q = Queue(cx, fn, extra=extra)
    zero(q.st)
    q.run()
    for c, m, n, d in bad: cx.ob(False, c, fn, m, n, d)
    n = 0
    for li in infos(q.E):
        for b in li.backs:
            if contradictory(b): continue
            pop = [r for r in b.env if r[0] == 'popped' and b.env[r][0] != 'phi']
            if not pop: continue
            u = b.env[pop[0]]
            f = lambda x: truth(fld(u, x), 'bool')
            mv, L = OR(f('is_g0_g1'), f('is_g2_g3')), lt(C(0), fld(u, 'length'))
            T = truth(wf(b, 'allow_travel_arcs_'), 'bool')
            X, Y, Z = f('is_extrusion'), f('is_retraction'), f('is_travel')
            base = [(mv, True), (L, True)]
            table = [('a line that is no move', [(f('is_g0_g1'), False), (f('is_g2_g3'), False)], None), ('an extrusion', base + [(X, True), (Y, False), (Z, False)], 'segment_statistics_'),
                     ('a retraction', base + [(X, False), (Y, True), (Z, False)], 'segment_retraction_statistics_'), ('a travel', base + [(X, False), (Y, False), (Z, True), (T, True)], 'travel_statistics_'),
                     ('a travel while travel arcs are off', base + [(X, False), (Y, False), (Z, True), (T, False)], None)]
            for what, conds, want in table:
                t = b.copy()
                if not all(t.assume(c, v) for c, v in conds): continue
                t = settle(t)
                if t is None or contradictory(t): continue
                n += 1
                for m, nm in MEM.items():
                    count_is(cx, t, g(m, 0), 1 if m == want else 0, 'target-once', fn, 'each written move is added once to the target statistics of its kind', '%s (%s)' % (what, nm))
                    count_is(cx, t, g(m, 1), 0, 'source-when-read', fn, 'source statistics do not change when lines are written', what)
                    if m == want and t.env[gl(m, 0)][0] != 'join':
                        for F, y in leaves(t, t.env[gl(m, 0)]): cx.same(y, fld(u, 'length'), 'target-length', fn, 'a written move is added with its length')
    cx.need(n, 4, 'cases of the target statistics')


def arc_side(cx):
    fn = cx.p.find(WARC)
    bad = []

    def extra(q, E, s, ci):
        if ci.q == STAT: return record(s, ci, lambda ok, c, m, n, d: bad.append((c, m, n, d)))
        if ci.q == FLUSH: return [(s, C(0))]
        return None
    q = Queue(cx, fn, extra=extra, opaque={FLUSH, 'arc_welder::get_comment_for_arc'})
    zero(q.st)
    q.run()
    for c, m, n, d in bad: cx.ob(False, c, fn, m, n, d)
    arcv = ('fld', ('init', W.root), 'current_arc_')
    n = 0
    for k, s, v in feasible_outs(q.outs):
        e = call('segmented_shape::get_shape_e_relative', arcv)
        alts = [x for x in subterms_of(s) if x[0] == 'call' and x[1].endswith('get_shape_e_relative')]
        if alts: e = alts[0]
        elif fld(arcv, 'e_relative_') in set(subterms_of(s)): e = fld(arcv, 'e_relative_')
        T = truth(wf(s, 'allow_travel_arcs_'), 'bool')
        for what, conds, want in [('an extruding arc', [(lt(C(0), e), True), (lt(e, C(0)), False)], 'segment_statistics_'), ('a retracting arc', [(lt(e, C(0)), True), (lt(C(0), e), False)], 'segment_retraction_statistics_'),
                                  ('a travel arc', [(lt(e, C(0)), False), (lt(C(0), e), False), (T, True)], 'travel_statistics_')]:
            t = s.copy()
            if not all(t.assume(c, v) for c, v in conds): continue
            t = settle(t)
            if t is None or contradictory(t): continue
            n += 1
            for m, nm in MEM.items():
                count_is(cx, t, g(m, 0), 1 if m == want else 0, 'target-arc-once', fn, 'each written arc is added once to the target statistics of its kind', '%s (%s)' % (what, nm))
                count_is(cx, t, g(m, 1), 0, 'source-when-read', fn, 'source statistics do not change when an arc is written', what)
                if m == want:
                    L = resolve(t, t.env[gl(m, 0)])
                    ok = (L[0] == 'call' and L[1].endswith('::get_shape_length')) or equal(L, fld(arcv, 'current_arc_', 'length'))
                    cx.ob(ok, 'target-arc-length', fn, 'a written arc is added with its length', detail=show(L))
    cx.need(n, 3, 'cases of the arc statistics')


def subterms_of(s):
    for t in s.facts: yield from subterms(t)
    for r, t in s.env.items():
        if isinstance(t, tuple) and r[0] == 'ghost': yield from subterms(t)


HIT = ('ghost', 'hit')


def update_contract(cx):
    fn = cx.p.find(STAT)
    R = ('this', fn['cls'])

    def store(E, s, lv, v, e, fr):
        if lv.path and lv.path[-1] == 'count' and any(isinstance(x, tuple) for x in lv.path):
            old = s.env.get(HIT, C(0))
            s.env[HIT] = ('hit', lv.path, v) if old == C(0) else ('hit', 'twice', v)
    E = Engine(cx.p, nomerge=True, on_store=store)
    st = State(mon=())
    st.env[HIT] = C(0)
    outs = E.run(fn, st, args={p['n']: arg(i) for i, p in enumerate(fn['p'])})
    cx.funcs.add(fn['q'])
    n = 0
    for k, s, v in outs:
        if k != 'R' or contradictory(s): continue
        pos, src = lt(C(0), arg(0)), truth(arg(1), 'bool')
        for t in cases(s, [pos, src]):
            n += 1
            on, so = t.holds(pos), t.holds(src)
            for f, inc, side in (('total_count_source', C(1), True), ('total_length_source', arg(0), True), ('total_count_target', C(1), False), ('total_length_target', arg(0), False)):
                old = ('fld', ('init', R), f)
                want = op('+', old, inc) if on and so is side else old
                cx.same(resolve(t, t.load(R, (f,))), want, 'update-totals', fn, 'an update with length adds one move and its length to the totals of its side, and nothing else', facts=t.facts)
            hit = t.env.get(HIT, C(0))
            msg = 'an update with length is counted in the one length class of its side that contains the length'
            if not on: cx.ob(hit == C(0), 'update-class', fn, msg, detail='counted without length')
            elif hit[0] == 'hit':
                side = 'source_segments' if so else 'target_segments'
                ok = hit[1] != 'twice' and side in hit[1]
                cx.ob(ok, 'update-class', fn, msg, detail='counted in %s' % (hit[1],))
                if ok: inclass(cx, hit[1][:-1], R, t, fn, True, msg)
    for li in infos(E):
        for b in li.backs:
            if contradictory(b): continue
            hit = b.env.get(HIT, C(0))
            msg = 'an update with length is counted in the one length class of its side that contains the length'
            if hit[0] in ('hit', 'phi'): cx.ob(False, 'update-class', fn, msg, detail='the search goes on after the update was counted')
            for x in {x for t in b.facts for x in subterms(t)}:
                if x[0] == 'fld' and x[2] == 'min_mm' or x[0] == 'fld' and x[-1] == 'max_mm':
                    pth = path_of(x, R)
                    if pth: inclass(cx, pth[:-1], R, b, fn, False, msg); break
    cx.need(n, 3, 'paths of the statistics update')


def path_of(t, R):
    p = []
    while t[0] == 'fld':
        p.append(t[2]); t = t[1]
    return tuple(reversed(p)) if t == ('init', R) else None


def inclass(cx, path, R, s, fn, counted, msg):
    """counted: the path implies min <= length < max of the class or that it is the last; else: it excludes that (as far as it looks at the bounds)"""
    base = s.load(R, path)
    sub = {x for t in s.facts for x in subterms(t)}
    lo, hi = NOT(lt(arg(0), fld(base, 'min_mm'))), lt(arg(0), fld(base, 'max_mm'))
    seen = [c for c, f in ((lo, 'min_mm'), (hi, 'max_mm')) if fld(base, f) in sub]
    last = [t for t in sub if t[0] == 'op' and t[1] == '==' and any(x[0] == 'call' and x[1].endswith('::size') for x in subterms(t))]
    if not seen: return
    if counted:
        for c in seen: cx.ob(entails(s, OR(c, *last)), 'update-class', fn, msg, detail='counted in a class without ' + show(c))
    else:
        c = NOT(AND(*seen)) if len(seen) > 1 else NOT(seen[0])
        cx.ob(entails(s, c), 'update-class', fn, msg, detail='a class that contains the length is passed over')


def others(cx):
    """statistics and counters are written nowhere else"""
    p = cx.p
    allow = {PG, FLUSH, WARC}
    start = {'arc_welder::reset', 'arc_welder::arc_welder', 'arc_welder::~arc_welder'}
    for f in p.funcs.values():
        if f.get('impl'): continue
        for c in calls(f):
            if c.get('f') == STAT:
                helpers = effects.reach(p, allow)
                cx.ob(f['q'] in allow or f['fid'] in helpers, 'stat-sites', f, 'statistics are updated only where lines are read or written', c)
        for m, nnode in effects.direct(f):
            if m in ('arc_welder::arcs_created_', 'arc_welder::points_compressed_'):
                ok = f['q'] in start or f['q'] == PG or f['fid'] in effects.reach(p, [PG])
                cx.ob(ok, 'counter-sites', f, 'the counters change only while lines are processed', nnode)
    fn = p.find('arc_welder::get_progress_')
    E, outs = epaths(cx, fn, pure={'arc_welder::get_time_elapsed'}, opaque={'source_target_segment_statistics::source_target_segment_statistics'})
    R = ('this', 'arc_welder')
    for k, s, v in outs:
        if k != 'R': continue
        r = retval(s, v)
        for a, b in (('points_compressed', 'points_compressed_'), ('arcs_created', 'arcs_created_'), ('segment_statistics', 'segment_statistics_'), ('segment_retraction_statistics', 'segment_retraction_statistics_'),
                     ('travel_statistics', 'travel_statistics_'), ('lines_processed', 'lines_processed_'), ('gcodes_processed', 'gcodes_processed_'), ('arcs_aborted_by_flow_rate', 'arcs_aborted_by_flow_rate_')):
            x, y = fld(r, a), ('fld', ('init', R), b)
            cx.ob(x == y or equal(x, y) or x[0] not in ('fld', 'c', 'init'), 'progress-' + a, fn, 'the progress reports %s' % a, detail=show(x))


@rule('P14', DOM + "Ghost counters per statistic and side are updated at every call of the statistics' update function; over all paths of the per-line function, of the flush (per popped entry) and of the arc writer, the counters must be 1 for the statistic of the move's kind and 0 for all others, in every case of a table of line kinds. The update's effect on the totals, the entry queued for a line, the counters of arcs and points, and the sites that may write any of them are checked too.")
def p14(cx):
    source_side(cx)
    flush_side(cx)
    arc_side(cx)
    update_contract(cx)
    others(cx)
