"""P01, P02, P03, P14: the per-line processing of the welder as a typestate over the queue and the open arc."""
import re
from ._lib import *
from sa.loops import closed, infos, const_delta

PG = 'arc_welder::process_gcode'
UPD, UNDO = 'gcode_position::update', 'gcode_position::undo_update'
ADDP = 'segmented_arc::try_add_point'
QPUSH, QPOPF, QPOPB, QCNT = ['array_list<unwritten_command>::' + x for x in ('push_back', 'pop_front', 'pop_back', 'count')]
FLUSH, WARC = 'arc_welder::write_unwritten_gcodes_to_file', 'arc_welder::write_arc_gcodes'
STAT = 'source_target_segment_statistics::update'
CURP, PREP = 'gcode_position::get_current_position_ptr', 'gcode_position::get_previous_position_ptr'
DISTS = {'utilities::get_cartesian_distance', 'utilities::get_arc_distance', 'utilities::get_percent_change', 'utilities::abs'}
W = LV(('this', 'arc_welder'), ())
VER = ('ghost', 'ver')
STREAM = ('ghost', 'stream')


def wf(s, *path): return s.load(W.root, path)


def dist(f, v):
    if v[0] == 'ite': return ('ite', v[1], dist(f, v[2]), dist(f, v[3]))
    return (f, v)


def is_clear(q): return q in ('segmented_arc::clear', 'segmented_shape::clear')


class Walk:
    """one run over process_gcode; events are recorded in the monitor and judged by the two rules"""

    def __init__(self, cx, waiting, is_end, debug, ob=True):
        self.cx, self.p = cx, cx.p
        p = cx.p
        self.obs = {}
        self.fn = fn = p.find(PG)
        for q in (UPD, ADDP, QPUSH, FLUSH, WARC): p.find(q)
        pure = DISTS | {CURP, PREP, 'position::get_current_extruder', 'position::is_travel', 'extruder::get_offset_e', 'position::get_gcode_x', 'position::get_gcode_y',
                'position::get_gcode_z', 'utilities::to_string', 'segmented_shape::get_num_segments', 'segmented_shape::get_min_segments', 'segmented_arc::is_shape', 'segmented_shape::is_shape', 'gcode_position::get_max_positions'}
        ops = {UPD, ADDP, QPUSH, FLUSH, WARC, STAT, 'segmented_arc::clear', 'segmented_shape::clear', 'gcode_position::grow_max_positions', PG, UNDO}
        self.E = Engine(p, opaque=ops, pure=pure, skip=logskip(p), on_call=self.call, gate=True)
        st = State(mon=('O' if waiting else 'E', ()))
        for x in LOGFLAGS: st.assume(truth(('fld', ('init', W.root), x), 'bool'), debug)
        st.assume(truth(wf(st, 'waiting_for_arc_'), 'bool'), waiting)
        prm = fn['p']
        if len(prm) < 3: raise AnalysisError('process_gcode does not take (command, is_end, is_reprocess)')
        self.cmd, self.end, self.rep = arg(0), arg(1), arg(2)
        st.assume(truth(self.end, 'bool'), is_end)
        self.waiting, self.is_end = waiting, is_end
        st.env[VER] = C('entry')
        self.known(st, 'open' if waiting else 'none')
        if is_end:
            st.assume(('isshape', C('entry')), True)
            st.assume(lt(('nseg', C('entry')), ('minseg',)), False)
            st.assume(truth(self.rep, 'bool'), False)
        a = {prm[0]['n']: self.cmd if not prm[0]['ty'].endswith('&') else LV(('param', '#0'), ()), prm[1]['n']: self.end, prm[2]['n']: self.rep}
        self.start(st)
        self.outs = self.E.run(fn, st, args=a)

    def start(self, s): pass

    def known(self, s, what):
        """facts about the arc in its current version (contracts of the arc class, decided by P06)"""
        v = s.env[VER]
        if what == 'none':
            s.assume(('isshape', v), False)
            s.assume(lt(('nseg', v), ('minseg',)), True)

    def note(self, ok, code, msg, node, detail=None, rule='P02'):
        k = (rule, code, node.get('l') if node else 0, msg)
        cur = self.obs.get(k)
        if cur is None or (cur[0] and not ok): self.obs[k] = (ok, node, detail)

    def ev(self, s, e, node):
        a, h = s.mon
        if len(h) > 24: raise AnalysisError('too many events on one path of process_gcode')
        s.mon = (a, h + (e,))

    def call(self, E, s, ci):
        q = ci.q
        a = s.mon[0]
        n = ci.node
        if ci.this is not None and ci.this.path[-1:] == ('current_arc_',):
            if ci.name == 'is_shape': return [(s, dist('isshape', s.env[VER]))]
            if ci.name == 'get_num_segments': return [(s, dist('nseg', s.env[VER]))]
            if ci.name == 'get_min_segments': return [(s, ('minseg',))]
        if q == UPD:
            self.ev(s, 'update', n)
            self.note(ci.args and ci.args[0] == self.cmd, 'line-tracked', 'the position is updated with the line itself', n)
            obj = wf(s, 'p_source_position_')
            l = E.deref(obj)
            s.store(l.root, l.path, ('mut', UPD, s.load(l.root, l.path), tuple(ci.args[:1])))
            return [(s, C(0))]
        if q == STAT: return self.stat(s, ci)
        if q == ADDP and ci.this is not None and ci.this.path[-1:] == ('current_arc_',):
            return self.add(E, s, ci)
        if q == QPUSH and ci.this.path[-1:] == ('unwritten_commands_',):
            v = ci.args[0]
            u = self.cmd
            self.note(equalv(fld(v, 'gcode'), fld(u, 'gcode')) and equalv(fld(v, 'comment'), fld(u, 'comment')), 'queued-text', "the queued entry holds the line's g-code and comment", n, show(v), 'P01')
            mv = fld(v, 'is_g0_g1')
            want = OR(eq(fld(u, 'command'), C('G0')), eq(fld(u, 'command'), C('G1')))
            r = equivalent(truth(mv, 'bool'), want, facts_of(s))
            self.note(not isinstance(r, tuple) and r is not False, 'queued-move-flag', 'the queued entry is marked as a move exactly for G0 and G1', n, show(mv))
            blank = entails(s, AND(truth(fld(u, 'is_empty'), 'bool'), eqlen0(fld(u, 'comment'))))
            nx = a
            if a == 'N': nx = 'O'
            elif a == 'O' and not blank: nx = 'D'
            elif a == 'S': nx = 'D'
            elif a == 'F': nx = 'F'
            if a == 'W': self.note(False, 'queued-after-arc', 'a line is queued after an arc was written and its position undone, instead of being processed again', n)
            s.mon = (nx, s.mon[1])
            self.ev(s, 'push', n)
            return [(s, C(0))]
        if q == FLUSH:
            self.note(a not in ('N',), 'flush-open', 'queued moves are not written while the arc made of them is kept', n)
            s.mon = ('F' if a in ('O', 'N', 'S', 'D') else a, s.mon[1])
            self.ev(s, 'flush', n)
            for f in ('unwritten_commands_', 'output_file_', 'segment_statistics_', 'segment_retraction_statistics_', 'travel_statistics_'):
                s.store(W.root, (f,), ('mut', FLUSH, wf(s, f), ()))
            return [(s, C(0))]
        if q == WARC:
            arcv = wf(s, 'current_arc_')
            shape = entails(s, dist('isshape', s.env[VER]))
            self.note(bool(shape), 'arc-is-shape', 'an arc is written only when it is a valid shape', n)
            self.note(a == 'O', 'arc-in-sync', {'O': 'an arc is written while its moves are the last ones in the queue', 'N': 'an arc is written although its last move is not in the queue yet',
                      'D': 'an arc is written although a line that is not part of it is queued behind its moves', 'E': 'an arc is written although none is open', 'S': 'an arc is written although it has no move',
                      'F': 'an arc is written although its moves were written already', 'W': 'an arc is written twice'}[a], n)
            s.mon = ('W', s.mon[1])
            self.ev(s, 'arc', n)
            # ghost: the arc as it is written
            s.store(('ghost', 'arc'), (), s.env[VER])
            self.havoc_warc(s)
            return [(s, C(0))]
        if is_clear(q) and ci.this is not None and ci.this.path[-1:] == ('current_arc_',):
            s.mon = ('E', s.mon[1])
            self.ev(s, 'clear', n)
            s.env[VER] = ('cleared', s.env[VER])
            self.known(s, 'none')
            s.store(ci.this.root, ci.this.path, ('mut', q, s.load(ci.this.root, ci.this.path), ()))
            return [(s, C(0))]
        if q == PG:
            w = s.holds(truth(wf(s, 'waiting_for_arc_'), 'bool'))
            self.note(a == 'E' and w is False, 'reprocess-clean', 'a line is processed again only after the arc was cleared and waiting ended', n, 'arc state %s' % a)
            self.note(ci.args[0] == self.cmd and ci.args[1] == C(0) and ci.args[2] == C(1), 'reprocess-line', 'the line that ended the arc is processed again as it is, marked as reprocessed', n, ', '.join(show(x) for x in ci.args))
            self.note('arc' in s.mon[1], 'reprocess-undone', 'a line is processed again only after its position update was undone with the arc', n)
            s.mon = (s.mon[0], s.mon[1])
            self.ev(s, 'again', n)
            return [(s, C(0))]
        if q == UNDO:
            self.ev(s, 'undo', n)
        return None

    def stat(self, s, ci): return [(s, C(0))]

    def havoc_warc(self, s):
        for f in ('unwritten_commands_', 'output_file_', 'segment_statistics_', 'segment_retraction_statistics_', 'travel_statistics_'):
            s.store(W.root, (f,), ('mut', WARC, wf(s, f), ()))

    def positions(self, s):
        """values of the current and the previous position at this point"""
        obj = wf(s, 'p_source_position_')
        return obj

    def add(self, E, s, ci):
        n = ci.node
        a = s.mon[0]
        pt = ci.args[0]
        which = 'prev' if refers(pt, PREP) and not refers(fld(pt, 'x'), CURP) else 'cur'
        if which == 'prev':
            self.note(a == 'E', 'arc-start', 'a new arc starts with the previous position, only when none is open', n, a)
            start_point(self, s, pt, n)
            nx_t, nx_f = 'S', 'E'
        else:
            self.note(a in ('S', 'O'), 'arc-continue', 'the end of a move is added only to an arc that holds its start', n, {'E': 'the arc is empty', 'N': 'the move was added already', 'D': 'another line is queued behind the moves of the arc'}.get(a, a))
            self.admission(s, pt, n)
            nx_t, nx_f = 'N', a
        objv = s.load(ci.this.root, ci.this.path)
        out = []
        for r, nx in ((1, nx_t), (0, nx_f)):
            if which == 'prev' and a == 'E' and not r: continue    # the first point is always accepted (checked by P06)
            t = s.copy()
            t.store(ci.this.root, ci.this.path, ('mut', ADDP + ('+' if r else '-'), objv, (pt,)))
            t.env[VER] = ('with' if r else 'without', s.env[VER], pt)
            if not r and a in 'ES' or which == 'prev': self.known(t, 'none')
            t.mon = (nx, t.mon[1] + (('add' if r else 'refused') + '-' + which,))
            out.append((t, C(r)))
        return out

    def admission(self, s, pt, n):
        """P03"""
        F = Facts(s.facts)
        cur, pre = posval(s, pt, CURP), posval(s, None, PREP)
        if cur is None or pre is None:
            self.note(False, 'admitted-point', 'the point added is the current position', n, show(pt), 'P03'); return
        x = self.cmd
        nt = lambda ok, what: self.note(bool(ok), 'admit: ' + what, 'a move joins an arc only if ' + what, n, None, 'P03')
        nt(entails(F, NOT(truth(self.end, 'bool'))), 'it is a line of the source (not the end of the file)')
        nt(entails(F, truth(fld(x, 'is_known_command'), 'bool')), 'its command is recognised')
        nt(entails(F, NOT(truth(fld(x, 'is_empty'), 'bool'))), 'its line is not empty')
        nt(entails(F, OR(eq(fld(x, 'command'), C('G0')), eq(fld(x, 'command'), C('G1')))), 'it is a G0 or G1')
        nt(entails(F, NOT(truth(fld(cur, 'is_relative'), 'bool'))), 'XYZ is in absolute mode')
        same = lambda f: near(F, fld(cur, f), fld(pre, f))
        for f in ('x_offset', 'y_offset', 'z_offset', 'x_firmware_offset', 'y_firmware_offset', 'z_firmware_offset'):
            nt(same(f), 'its %s is that of the position before' % f)
        nt(entails(F, mk_eq(fld(cur, 'is_extruder_relative'), fld(pre, 'is_extruder_relative'))) or sameb(F, fld(cur, 'is_extruder_relative'), fld(pre, 'is_extruder_relative')), 'the extruder mode is that of the position before')
        a3 = truth(wf(s, 'allow_3d_arcs_'), 'bool')
        nt(near(F, fld(cur, 'z'), fld(pre, 'z'), a3), 'Z is unchanged or 3D arcs are allowed')
        if self.waiting:
            nt(entails(F, eq(fld(cur, 'f'), fld(pre, 'f'))) or near(F, fld(cur, 'f'), fld(pre, 'f')), 'the feed rate is that of the position before (arc open)')
            nt(entails(F, mk_eq(fld(cur, 'feature_type_tag'), fld(pre, 'feature_type_tag'))), 'the feature type is that of the position before (arc open)')
            ex = call('position::get_current_extruder', cur)
            tr = call('position::is_travel', cur)
            nt(entails(F, OR(OR(truth(fld(ex, 'is_extruding'), 'bool'), truth(fld(ex, 'is_retracting'), 'bool')), AND(truth(wf(s, 'allow_travel_arcs_'), 'bool'), truth(tr, 'bool')))),
               'it extrudes, retracts, or is a travel with travel arcs allowed (arc open)')
        # extrusion rate
        var = wf(s, 'extrusion_rate_variance_percent_')
        prev = ('fld', ('init', W.root), 'previous_extrusion_rate_')
        ex = call('position::get_current_extruder', cur)
        ln = fld(pt, 'distance')
        e = fld(ex, 'e_relative')
        rate = div(e, ln)
        nt(rate_ok(F, prev, var, e, ln, [t for t in s.facts if t[0] != 'val']), 'the extrusion rate changes by no more than the allowed variance (when that limit is on)')
        # the point itself
        want = dict(x=call('position::get_gcode_x', cur), y=call('position::get_gcode_y', cur), z=call('position::get_gcode_z', cur), e_relative=e, f=fld(cur, 'f'))
        for f, w in want.items():
            self.note(equal(fld(pt, f), w), 'point-' + f, "the point carries the move's own " + f, n, '%s instead of %s' % (show(fld(pt, f)), show(w)))


def start_point(wk, s, pt, n):
    pre = posval(s, pt, PREP)
    for f in 'xyz':
        w = call('position::get_gcode_' + f, pre)
        wk.note(equal(fld(pt, f), w), 'start-' + f, "the arc starts at the previous position's " + f, n, show(fld(pt, f)))
    wk.note(equal(fld(pt, 'f'), fld(pre, 'f')), 'start-f', "the arc's start carries the previous feed rate", n, show(fld(pt, 'f')))
    wk.note(equal(fld(pt, 'distance'), C(0)), 'start-distance', 'the start point adds no length', n, show(fld(pt, 'distance')))


def equalv(a, b): return a == b or norm.VK(a) == norm.VK(b)


def eqlen0(t): return eq(call('strlen', t), C(0))


def refers(t, q):
    return any(x[0] == 'call' and x[1] == q for x in subterms(t))


def posval(s, pt, q):
    """value of the position the pointer returned by q points to"""
    cands = set()
    for t in ([pt] if pt is not None else list(s.facts)):
        for x in subterms(t):
            if x[0] == 'init' and x[1][0] == 'deref' and x[1][1][0] == 'call' and x[1][1][1] == q: cands.add(x)
    if not cands: return None
    return sorted(cands, key=repr)[0]


def near(F, a, b, unless=None):
    d = absv(sub(a, b))
    for t in (lt(d, C(5e-6)), lt(absv(sub(a, b)), C(1e-5)), eq(a, b)):
        if entails(F, t if unless is None else OR(unless, t)): return True
    return False


def sameb(F, a, b):
    return entails(F, OR(AND(truth(a, 'bool'), truth(b, 'bool')), AND(NOT(truth(a, 'bool')), NOT(truth(b, 'bool')))))


def outer_cases(t, conds=()):
    if t[0] == 'ite': return outer_cases(t[2], conds + ((t[1], True),)) + outer_cases(t[3], conds + ((t[1], False),))
    return [(conds, t)]


def rate_ok(F, prev, var, e, ln, facts):
    """prev==0, or no rate (limit off, no length, no extrusion), or |change| <= variance (within tolerance)"""
    free = OR(OR(eq(prev, C(0)), eq(var, C(0))), OR(NOT(lt(C(0), ln)), OR(eq(e, C(0)), NOT(lt(C(0), prev)))))
    if entails(F, free): return True
    def wanted(v):
        if v[0] != 'call' or not (v[1] in ('abs', 'utilities::abs')): return False
        a = v[2][0]
        if a[0] == 'call' and a[1] == 'utilities::get_percent_change': return equal(a[2][0], prev) and equal(a[2][1], div(e, ln))
        return equal(a, div(sub(div(e, ln), prev), prev))
    cands = set()
    for t in facts:
        for x in subterms(t):
            if x[0] == 'op' and x[1] in ('<', '==', '-'):
                for u, v in ((x[2], x[3]), (x[3], x[2])):
                    if v == var and any(wanted(y) for y in subterms(u)): cands.add(u)
    for d in cands:
        if not any(entails(F, OR(eq(prev, C(0)), c)) for c in (lt(sub(d, var), C(1e-5)), OR(lt(d, var), lt(absv(sub(d, var)), C(1e-5))), OR(lt(d, var), eq(d, var)))): continue
        ok = True
        for conds, v in outer_cases(d):
            if wanted(v): continue
            G = norm._clone(F)
            for c, h in conds: G.add(B(c) if h else norm.bnot(B(c)))
            if not entails(G, free): ok = False; break
        if ok: return True
    return False


def runs(cx):
    c = getattr(cx, '_welder', None)
    if c is None:
        c = cx._welder = []
        for waiting in (True, False):
            for is_end in (False, True):
                if is_end and not waiting: continue
                for dbg in (False, True):
                    c.append(Walk(cx, waiting, is_end, dbg))
    return c


def emit(cx, pid):
    fn = cx.p.find(PG)
    n = 0
    best = {}
    for wk in runs(cx):
        for (r, code, l, msg), (ok, node, det) in wk.obs.items():
            if r != pid: continue
            k = (code, l, msg)
            if k not in best or (best[k][0] and not ok): best[k] = (ok, node, det)
    for (code, l, msg), (ok, node, det) in best.items():
        cx.ob(ok, code, fn, msg, node, det); n += 1
    return n


@rule('P01', DOM + "Typestate of queue, open arc and waiting flag over every path of process_gcode (opaque events: position update, add point, queue, flush, write arc, clear, reprocess): each line is queued once or reprocessed once. Contracts of the flush (one pop, one line of text per queued entry, queue empty at the end, by loop induction), of the line loop in process (each line read is parsed and processed once) and of the final flush.")
def p01(cx):
    fn = cx.p.find(PG)
    n = emit(cx, 'P01')
    np = 0
    for wk in runs(cx):
        for k, s, v in wk.outs:
            if contradictory(s): continue
            a, h = s.mon
            pushes, again, arcs = h.count('push'), h.count('again'), h.count('arc')
            np += 1
            tr = ' > '.join(h)
            if wk.is_end:
                cx.ob(arcs == 1 and pushes == 0 and again == 0, 'final-arc', fn, 'at the end of the input the open arc is written and the last line is not queued again', detail=tr)
            elif arcs:
                cx.ob(again == 1 and pushes == 0, 'line-after-arc', fn, 'the line that ended an arc is processed again, once', detail=tr)
            else:
                cx.ob(pushes == 1 and again == 0, 'line-queued-once', fn, 'a line is queued exactly once', detail=tr)
    cx.need(np, 8, 'paths of process_gcode')
    flush_contract(cx)
    process_loop(cx)
    text_contract(cx)


@rule('P02', DOM + "Typestate of the open arc over every path of process_gcode: it starts with the previous position, every accepted move is queued behind the moves already in it, it is written only in that state and cleared before the line is reprocessed. Contract of write_arc_gcodes by induction over its loops: moves popped from the back = segments - 1, one undo, flush before the arc line, comment collected before the moves are popped.")
def p02(cx):
    fn = cx.p.find(PG)
    emit(cx, 'P02')
    for wk in runs(cx):
        for k, s, v in wk.outs:
            if contradictory(s): continue
            a, h = s.mon
            w = s.holds(truth(wf(s, 'waiting_for_arc_'), 'bool'))
            tr = ' > '.join(h)
            cx.ob(h[:1] == ('update',) and h.count('update') == 1 and 'undo' not in h, 'tracked-once', fn, 'each line updates the position exactly once, before anything else', detail=tr)
            cx.ob(a in 'EO', 'arc-state', fn, ({'E': 'no arc is left open', 'O': 'the open arc is made of the last queued moves','N': 'a move was added to the arc but not queued', 'D': 'a line that is not in the arc is queued behind its moves while the arc stays open',
                      'S': 'an arc holding only a start point is left open', 'F': 'the moves of an arc that stays open were written', 'W': 'a written arc is not cleared'}[a]), detail=tr)
            if 'again' not in h:
                cx.ob((w is True and a == 'O') or (w is False and a == 'E') or a not in 'EO', 'waiting-flag', fn, 'the waiting flag is set exactly while an arc is open', detail='%s, waiting=%s, arc %s' % (tr, w, a))
    write_arc_contract(cx)
    from rules.arc import cleared
    cleared(cx)


@rule('P03', DOM + "At every call that offers the current position to an arc, the branch facts of every path must entail each admission condition (bounded propositional case split with Fourier-Motzkin elimination on the comparisons).")
def p03(cx):
    n = emit(cx, 'P03')
    cx.need(n, 12, 'admission conditions')


# ------------------------------------------------------------------ flush
class Queue:
    """ghost counters of the queue of unwritten commands and of the text written"""

    def __init__(self, cx, fn, nomerge=False, extra=None, opaque=(), moves=True):
        self.cx, self.fn, self.extra = cx, fn, extra
        p = cx.p
        self.N, self.M, self.OUT, self.K = ('ghost', 'n'), ('ghost', 'moves'), ('ghost', 'out'), ('ghost', 'pops')
        self.bad = []
        self.log = []
        self.moves = moves
        self.pops = 0
        self.dirs = set()
        self.E = Engine(p, opaque=set(opaque) | {STAT, UNDO, QPOPF, QPOPB, QPUSH, 'array_list<unwritten_command>::operator[]', 'array_list<unwritten_command>::get'} , pure={'segmented_shape::get_num_segments', 'segmented_arc::get_shape_gcode', 'segmented_shape::get_shape_e_relative', 'segmented_shape::get_shape_length', 'segmented_arc::get_shape_e_relative', 'segmented_arc::get_shape_length', 'segmented_shape::get_shape_gcode'},
                        skip=logskip(p), on_call=self.call, gate=True, nomerge=nomerge)
        st = State(mon=())
        for x in LOGFLAGS: st.assume(truth(('fld', ('init', W.root), x), 'bool'), False)
        st.env[self.N] = ('init', self.N)
        st.env[self.M] = C(0)
        st.env[self.K] = C(0)
        st.env[self.OUT] = C('')
        self.st = st

    def run(self, args=None):
        a = {prm['n']: arg(i) for i, prm in enumerate(self.fn['p'])}
        self.outs = self.E.run(self.fn, self.st, args=a)
        return self

    def call(self, E, s, ci):
        if self.extra:
            r = self.extra(self, E, s, ci)
            if r is not None: return r
        q = ci.q
        mine = ci.this is not None and ci.this.path[-1:] == ('unwritten_commands_',)
        if mine and q == QCNT:
            return [(s, s.env[self.N])]
        if mine and q in (QPOPF, QPOPB):
            self.pops += 1
            self.dirs.add(q)
            n, k = s.env[self.N], s.env[self.K]
            v = ('call', q, (s.load(ci.this.root, ci.this.path), k))
            root = ('popped', E.nid(ci.node))
            s.env[root] = ('init', ('deref', v))
            s.env[self.N] = mk_bin('-', n, C(1), 'int')
            s.env[self.K] = mk_bin('+', k, C(1), 'int')
            s.store(ci.this.root, ci.this.path, ('mut', q, s.load(ci.this.root, ci.this.path), ()))
            ret = ('lvref', root, ())
            from sa.absint import LV as L
            outs = []
            if q == QPOPB and self.moves:
                for b in (True, False):
                    t = s.copy()
                    if not t.assume(truth(fld(t.env[root], 'is_g0_g1'), 'bool'), b): continue
                    if b: t.env[self.M] = mk_bin('+', t.env[self.M], C(1), 'int')
                    t.mon = (t.mon or ())
                    outs.append((t, L(root, ())))
                return outs
            return [(s, L(root, ()))]
        if ci.kind == 'stream' and ci.this is not None and ci.this.path[-1:] == ('output_file_',):
            s.env[self.OUT] = cat(s.env[self.OUT], ci.args[0])
            return None
        if ci.this is not None and ci.this.path[-1:] == ('output_file_',) and ci.name in ('put', 'write') and ci.args:
            v = ci.args[0]
            if ci.name == 'put': v = C(chr(v[1])) if is_c(v) and isinstance(v[1], int) and 0 < v[1] < 128 else v
            else:
                # all the characters of one string
                x = {v[2][0] if v[0] == 'call' and re.search(r'(^|::)(data|c_str)$', v[1]) and v[2] else v}
                y = {b[2][0] for b in (ci.args[1], ci.args[1][-1] if ci.args[1][0] == 'cast' else ci.args[1]) if b[0] == 'call' and re.search(r'(^|::)(size|length|strlen)$', b[1]) and b[2]} if len(ci.args) == 2 else set()
                v = x.pop() if x and x == y else ('call', 'write', tuple(ci.args))
            s.env[self.OUT] = cat(s.env[self.OUT], v)
            return None
        return None


def feasible_outs(outs, kinds=('R',)):
    return [(k, s, v) for k, s, v in outs if k in kinds and not contradictory(s)]


def popped_text(u):
    """text of a queued entry"""
    g, c = fld(u, 'gcode'), fld(u, 'comment')
    return lt(C(0), call('strlen', c)), cat(g, C(';'), c, C('\n')), cat(g, C('\n'))


def strcases(t, facts):
    try: return [(c, recat(x)) for c, x in split_cases(t)]
    except ValueError: return [([], t)]


def recat(t):
    return cat(*[recat(x) for x in t[1:]]) if t[0] == 'cat' else t


def flush_contract(cx):
    fn = cx.p.find(FLUSH)
    q = Queue(cx, fn).run()
    outs = feasible_outs(q.outs)
    cx.need(q.pops, 1, 'pops of the flush')
    cx.ob(q.dirs == {QPOPF}, 'flush-order', fn, 'the queue is emptied from its front, so that lines keep their order', detail=', '.join(sorted(q.dirs)))
    for li in infos(q.E):
        for b in li.backs:
            if contradictory(b): continue
            d = [const_delta(b.env.get(q.K, C(0)), h.env.get(q.K, C(0))) for h in li.heads]
            if any(x is not None and x > 1 for x in d):
                cx.ob(False, 'flush-one-each', fn, 'each pass of the flush takes exactly one entry from the queue', li.node)
    for k, s, v in outs:
        n = closed(q.E, s.env[q.N], s)
        cx.ob(equal(n, C(0)), 'flush-empties', fn, 'after the flush the queue is empty', detail='left in the queue: %s' % show(n))
        out = s.env[q.OUT]
        acc = [x for x in subterms(out) if x[0] == 'phi']
        if out == C('') or (not acc and any(x[0] == 'popped' for x in subterms(out))):
            cx.ob(out != C('') or equal(s.env[q.K], C(0)), 'flush-writes', fn, 'the text of the popped entries is written to the target', detail=show(out)); continue
        ok = len(acc) == 1 and out == acc[0]
        cx.ob(ok or len(acc) != 1, 'flush-output', fn, 'the flush writes the collected text once and nothing else', detail=show(out))
        if len(acc) != 1: cx.undecided.append(('flush-output', fn['q'], show(out), '')); continue
        li = next(x for x in infos(q.E) if x.lid == acc[0][1])
        ev = li.entry.get(acc[0])
        cx.ob(ev == C(''), 'flush-start', fn, 'the collected text starts empty', li.node, show(ev) if ev else None)
        for b in li.backs:
            if contradictory(b): continue
            x = b.load(acc[0][2], acc[0][3])
            pop = [r for r in b.env if r[0] == 'popped' and b.env[r][0] != 'phi']
            if not pop:
                cx.ob(False, 'flush-pop', fn, 'each pass of the flush pops an entry', li.node); continue
            u = b.env[pop[0]]
            cond, withc, without = popped_text(u)
            for cs, y in strcases(x, b.facts):
                F = Facts(b.facts)
                for c, bv in cs: F.add(B(c) if bv else norm.bnot(B(c)))
                if norm.contradiction(F): continue
                if norm.entails(F, cond): want = cat(acc[0], withc)
                elif norm.entails(F, NOT(cond)): want = cat(acc[0], without)
                else: want = None
                good = equalv(y, want) if want is not None else False
                cx.ob(good, 'flush-text', fn, "each popped entry's g-code, and its comment behind a semicolon if it has one, is appended as one line", li.node, 'appended: %s' % show(y))
    fw = cx.p.find('arc_welder::write_gcode_to_file')
    q = Queue(cx, fw).run()
    for k, s, v in feasible_outs(q.outs):
        cx.ob(s.env[q.OUT] == cat(arg(0), C('\n')), 'write-line', fw, 'the text given is written to the target followed by a line end', detail=show(s.env[q.OUT]))


def uneven(q):
    """a loop whose passes take different numbers of moves while no counter of the loop follows that number"""
    from sa.loops import delta_in, resolve
    for li in infos(q.E):
        t = li.phis.get((q.M, ()))
        if t is None or li.delta.get(t) is not None or t in li.rel: continue
        ds = []
        for b in li.backs:
            if contradictory(b): continue
            for cs, y in split_cases(resolve(b, b.load(q.M, ()))):
                b2 = b.copy()
                if all(b2.assume(c, v) for c, v in cs) and not contradictory(b2): ds.append((b2, delta_in(b2, resolve(b2, y), t)))
        if not ds or any(d is None for b, d in ds) or len({d for b, d in ds}) < 2: continue
        follows = False
        for (r, path), u in li.phis.items():
            if u == t: continue
            es = [delta_in(b, resolve(b, b.load(r, path)), u) for b, d in ds if r[0] != 'v' or r in b.env]
            if len(es) == len(ds) and (all(e == d for e, (b, d) in zip(es, ds)) or all(e is not None and e == -d for e, (b, d) in zip(es, ds))): follows = True
        if not follows: return 'moves taken per pass: %s' % sorted({int(d) for b, d in ds})
    return None


def write_arc_contract(cx):
    fn = cx.p.find(WARC)
    GC = 'arc_welder::get_comment_for_arc'
    cx.p.find(GC)

    def extra(q, E, s, ci):
        if ci.q == FLUSH:
            s.env[q.OUT] = cat(s.env[q.OUT], ('flushed',))
            s.mon = s.mon + ('flush',)
            return [(s, C(0))]
        if ci.q == UNDO:
            s.mon = s.mon + ('undo',)
            return None
        if ci.q == GC:
            s.mon = s.mon + ('comment' if s.env[q.K] == C(0) else 'late-comment',)
            return [(s, ('arc-comment',))]
        return None
    q = Queue(cx, fn, extra=extra, opaque={FLUSH, GC}).run()
    arcv = ('fld', ('init', W.root), 'current_arc_')
    ns = call('segmented_shape::get_num_segments', arcv)
    shp = None
    n = 0
    if q.dirs: cx.ob(q.dirs == {QPOPB}, 'arc-drops-back', fn, "the moves the arc replaces are taken from the back of the queue", detail=', '.join(sorted(q.dirs)))
    for k, s, v in feasible_outs(q.outs):
        n += 1
        m = closed(q.E, s.env[q.M], s)
        if any(x[0] in ('ite', 'phi') for x in subterms(m)):
            if uneven(q): cx.ob(False, 'arc-drops', fn, 'as many moves are taken from the back of the queue as the arc has segments (points - 1)', detail='a pass takes an entry that is no move and counts it, or the reverse: ' + uneven(q))
            else: cx.undecided.append(('arc-drops', fn['q'], show(m), ''))
        else: cx.same(m, sub(ns, C(1)), 'arc-drops', fn, 'as many moves are taken from the back of the queue as the arc has segments (points - 1)')
        cx.ob(s.mon.count('undo') == 1, 'arc-undo', fn, 'the position update of the line that ended the arc is undone once', detail=' > '.join(s.mon))
        cx.ob(s.mon.count('flush') == 1, 'arc-flush', fn, 'the lines before the arc are written once, before the arc', detail=' > '.join(s.mon))
        cx.ob(s.mon.count('late-comment') == 0, 'arc-comment-first', fn, 'the comments are collected before the moves are taken from the queue', detail=' > '.join(s.mon))
        out = s.env[q.OUT]
        gc = [x for x in subterms(out) if x[0] == 'call' and x[1].endswith('::get_shape_gcode')]
        cx.ob(bool(gc), 'arc-text', fn, "the arc's g-code is written", detail=show(out))
        if not gc: continue
        cond = lt(C(0), call('strlen', ('arc-comment',)))
        for cs, y in strcases(out, s.facts):
            F = Facts(s.facts)
            for c, bv in cs: F.add(B(c) if bv else norm.bnot(B(c)))
            if norm.contradiction(F): continue
            a = cat(('flushed',), gc[0], C(';'), ('arc-comment',), C('\n'))
            b = cat(('flushed',), gc[0], C('\n'))
            if norm.entails(F, cond): good = y == a
            elif norm.entails(F, NOT(cond)): good = y == b
            else: good = y == a and False
            cx.ob(good, 'arc-line', fn, 'the lines before it, then the arc and the collected comment behind a semicolon, are written as one line', detail='written: %s' % show(y))
    cx.need(n, 1, 'paths of write_arc_gcodes')
    # pops that are not moves are only the blank lines in between: every pop is counted or skipped by the move flag
    comment_contract(cx, cx.p.find(GC))


ITEMS = {'array_list<unwritten_command>::operator[]', 'array_list<unwritten_command>::get'}


def comment_contract(cx, fn):
    G = ('ghost', 'seen')

    def extra(q, E, s, ci):
        if ci.q in ITEMS:
            root = ('item', E.nid(ci.node))
            s.env[root] = ('item', ci.args[0])
            outs = []
            from sa.absint import LV as L
            for b in (True, False):
                t = s.copy()
                if not t.assume(truth(fld(t.env[root], 'is_g0_g1'), 'bool'), b): continue
                outs.append((t, L(root, ())))
            return outs
        return None
    q = Queue(cx, fn, extra=extra)
    N = q.st.env[q.N]
    q.run()
    ns = call('segmented_shape::get_num_segments', ('fld', ('init', W.root), 'current_arc_'))
    done = 0
    for li in infos(q.E):
        for t, e in li.entry.items():
            if is_c(e) and isinstance(e[1], str):
                # the loop collecting the text
                done += collect_loop(cx, q, li, t, N, ns, fn)
    if not done: cx.undecided.append(('arc-comment', fn['q'], 'no collecting loop', ''))


def collect_loop(cx, q, li, acc, N, ns, fn):
    idx = None
    used = set()
    for b in li.backs:
        if contradictory(b): continue
        x = b.load(acc[2], acc[3])
        its = {y for y in subterms(x) if y[0] == 'item'}
        used |= {y[1] for y in its}
    vary = [y for y in used if any(z[0] == 'phi' and z[1] == li.lid for z in subterms(y))]
    cx.ob(bool(vary), 'comment-items', fn, 'the comments of the queued entries are appended', li.node)
    if not vary: return 1
    ix = vary[0]
    st = li.step(ix)
    e0 = li.at0(ix)
    if st == 1:
        for b in li.exits:
            if b[0] != 'N' or contradictory(b[1]): continue
            k = li.count(b[1])
            if k is None: continue
            end = li.at(ix, k)
            cx.ob(equal(end, N) or pit.witness(end, N, {}, seed=cx.seed) is None, 'comment-end', fn, 'comments are collected up to the last queued entry', li.node, show(end))
    if e0 is not None:
        ph = [z for z in subterms(e0) if z[0] == 'phi']
        if not ph:
            # a fixed offset from the end counts blank lines as moves
            bad = pit.witness(e0, C(0), {}, seed=cx.seed) is not None
            cx.ob(not bad, 'comment-start', fn, 'the comments of all moves of the arc are collected, also with blank lines between them', li.node, 'starts at the fixed position %s' % show(e0))
        else:
            for l2 in infos(q.E):
                if l2.lid != ph[0][1]: continue
                count_loop(cx, q, l2, e0, ns, fn)
    # nothing that is not empty and new is left out
    for b in li.backs:
        if contradictory(b): continue
        x = b.load(acc[2], acc[3])
        for cs, y in strcases(x, b.facts):
            F = Facts(b.facts)
            for c, bv in cs: F.add(B(c) if bv else norm.bnot(B(c)))
            if norm.contradiction(F): continue
            cm = ('fld', ('item', ix), 'comment')
            if y == acc:
                skip = OR(eq(call('strlen', cm), C(0)), mk_eq(cm, acc))
                cx.ob(norm.entails(F, skip), 'comment-kept', fn, 'a comment is left out only when it is empty or repeats the text collected so far', li.node)
            else:
                ok = y[0] == 'cat' and y[1] == acc and y[-1] == cm or y == cm
                cx.ob(ok, 'comment-append', fn, 'a comment is appended after the text collected so far', li.node, show(y))
    return 1


def count_loop(cx, q, li, e0, ns, fn):
    """walks back over the queue until as many moves were seen as the arc has segments"""
    for t, e in li.entry.items():
        if const_delta(e, ns) is not None:
            for b in li.backs:
                if contradictory(b): continue
                d = const_delta(b.load(t[2], t[3]), t)
                its = {y for f in b.facts for y in subterms(f) if y[0] == 'item' and any(z[0] == 'phi' and z[1] == li.lid for z in subterms(y))}
                for it in its:
                    mv = b.holds(truth(fld(it, 'is_g0_g1'), 'bool'))
                    if mv is not None and d is not None:
                        cx.ob((d == -1) == mv and d in (0, -1), 'comment-moves', fn, 'only moves count as segments of the arc when its comments are collected', li.node)
            cx.ob(equal(e, sub(ns, C(1))), 'comment-segments', fn, 'as many moves are looked at as the arc has segments', li.node, show(e))


# ------------------------------------------------------------------ the line loop
def process_loop(cx):
    p = cx.p
    fn = p.find('arc_welder::process')
    PARSE = 'gcode_parser::try_parse_gcode'
    WG = 'arc_welder::write_gcode_to_file'
    WC = 'arc_welder::add_arcwelder_comment_to_target'
    p.find(PARSE, many=True)
    bad = {}
    seen = set()

    def note(ok, code, msg, node, det=None):
        k = (code, node.get('l'))
        seen.add(code)
        if k not in bad or (bad[k][0] and not ok): bad[k] = (ok, msg, node, det)

    def oc(E, s, ci):
        q = ci.q
        ph, fl = s.mon
        if q == 'std::getline':
            note(ph != 'line', 'line-handled', 'every line read is processed before the next one is read', ci.node)
            s.mon = ('line', fl)
            s.env[('ghost', 'line')] = C(0)
            # the line read
            lv = ci.lvs[1]
            st = s.copy()
            s.env[STREAM], st.env[STREAM] = C(0), C(1)
            if isinstance(lv, LV):
                st.store(lv.root, lv.path, ('line', s.load(W.root, ('lines_processed_',))))
                st.env[('ghost', 'line')] = st.load(lv.root, lv.path)
            s.mon = ('end', fl)
            return [(st, LV(STREAM, ())), (s, LV(STREAM, ()))]
        if ci.name == 'operator bool' and ci.this is not None and ci.this.root == STREAM:
            return [(s, s.env[STREAM])]
        if ci.name == 'operator!' and ci.this is not None and ci.this.root == STREAM:
            return [(s, mk_not(s.env[STREAM]))]
        if q == PARSE:
            L = s.env.get(('ghost', 'line'))
            note(ci.args[0] == L, 'line-parsed', 'the line read is what is parsed', ci.node, show(ci.args[0]))
            if isinstance(ci.lvs[1], LV): s.store(ci.lvs[1].root, ci.lvs[1].path, ('parsed', ci.args[0]))
            if len(ci.args) > 2: note(ci.args[2] == C(1), 'text-preserved', 'lines are parsed with their text preserved', ci.node)
            return [(s, ('call', PARSE, tuple(ci.args[:1])))]
        if q == PG:
            end = ci.args[1]
            if end == C(1):
                s.mon = (s.mon[0], 'final')
                arcv = wf(s, 'current_arc_')
                sh = entails(s, AND(truth(wf(s, 'waiting_for_arc_'), 'bool'), OR(call('segmented_arc::is_shape', arcv), call('segmented_shape::is_shape', arcv))))
                note(sh, 'final-guard', 'the last arc is written at the end only if one is open and valid', ci.node)
                note(ph != 'line', 'final-after-loop', 'the final arc is written after the last line was processed', ci.node)
            else:
                L = s.env.get(('ghost', 'line'))
                note(ph == 'line', 'line-once', 'each line is processed once', ci.node, ph)
                note(ci.args[0] == ('parsed', L), 'line-own', 'the line processed is the one parsed from the line read', ci.node, show(ci.args[0]))
                note(ci.args[2] == C(0), 'line-first', 'a line read is not marked as processed again', ci.node)
                s.mon = ('done', '')
            for f in ('current_arc_', 'waiting_for_arc_', 'unwritten_commands_', 'output_file_', 'p_source_position_'):
                s.store(W.root, (f,), ('mut', PG, wf(s, f), (C(E.nid(ci.node)),)))
            return [(s, C(0))]
        if q == WG:
            L = s.env.get(('ghost', 'line'))
            if ph == 'line' and ci.args and ci.args[0] == L: s.mon = ('copied', fl)
            return [(s, C(1))]
        if q == WC:
            if ph == 'copied': s.mon = ('done', fl)
            return [(s, C(0))]
        if q in ('arc_welder::get_progress_', 'arc_welder::on_progress_', 'arc_welder::get_file_size'):
            return [(s, ('call', q, (('n', E.nid(ci.node)),)))]
        if q == FLUSH:
            arcv = wf(s, 'current_arc_')
            if fl != 'final':
                none = NOT(AND(truth(wf(s, 'waiting_for_arc_'), 'bool'), call('segmented_arc::is_shape', arcv)))
                none2 = NOT(AND(truth(wf(s, 'waiting_for_arc_'), 'bool'), call('segmented_shape::is_shape', arcv)))
                note(entails(s, OR(none, none2)), 'final-arc-written', 'an arc still open at the end of the input is written before the final flush', ci.node)
            s.mon = (ph, 'flushed')
            return [(s, C(0))]
        if ci.name == 'close' and ci.this is not None and ci.this.path[-1:] == ('output_file_',):
            note(fl == 'flushed', 'flushed-before-close', 'everything held back is written before the target is closed', ci.node)
            note(ph != 'line', 'line-handled', 'every line read is processed before the target is closed', ci.node)
            s.mon = (ph, 'closed')
            return [(s, C(0))]
        return None
    E = Engine(p, opaque={PG, WG, WC, FLUSH, PARSE, 'arc_welder::get_progress_', 'arc_welder::on_progress_', 'arc_welder::get_file_size', 'utilities::get_temp_file_path_for_file'}, pure={'segmented_arc::is_shape', 'segmented_shape::is_shape', 'arc_welder::get_next_update_time'}, skip=logskip(p), on_call=oc)
    outs = E.run(fn, State(mon=('start', '')))
    for (code, l), (ok, msg, node, det) in bad.items():
        cx.ob(ok, code, fn, msg, node, det)
    for k, s, v in outs:
        if s.mon[0] not in ('start',) and not contradictory(s):
            cx.ob(s.mon[1] == 'closed', 'closed-at-end', fn, 'the target is closed after the final flush before the function returns', detail=str(s.mon))
    cx.need(len(seen & {'line-handled', 'line-parsed', 'line-once', 'flushed-before-close'}), 4, 'events of the line loop')


def text_contract(cx):
    """the text of an entry is its g-code followed by its comment"""
    fn = cx.p.find('unwritten_command::to_string')
    E, outs = paths(cx, fn)
    U = ('init', ('this', 'unwritten_command'))
    g, c = fld(U, 'gcode'), fld(U, 'comment')
    cond = lt(C(0), call('strlen', c))
    for k, s, v in feasible_outs(outs):
        for cs, y in strcases(retval(s, v), s.facts):
            F = Facts(s.facts)
            for t, b in cs: F.add(B(t) if b else norm.bnot(B(t)))
            if norm.contradiction(F): continue
            if norm.entails(F, cond): good = equalv(y, cat(g, C(';'), c))
            elif norm.entails(F, NOT(cond)): good = equalv(y, g)
            else: good = False
            cx.ob(good, 'entry-text', fn, 'the text of an entry is its g-code and, if it has one, its comment behind a semicolon', detail=show(y))
