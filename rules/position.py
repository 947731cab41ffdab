"""P24-P26, P31: the position tracker"""
import re
from itertools import combinations
from ._lib import *
import os
COUNTS = 9 if os.environ.get('VERIF_TIER') == 'thorough' else 5    # numbers of tools enumerated: 1 .. COUNTS - 1
from .parser import handlers, strip_cast
from sa import loops

AXES = ('x', 'y', 'z')
POS = ('deref', arg(0))
CMD = ('param', '#1')


def val(letter): return ('init', ('value', letter))


def tool_place(s, t, i):
    """the extruder with (clamped) number i of the position at t; the clamping itself is checked by extruder_access"""
    return LV(('tool', t.root, t.path, i), ())


class Handler:
    """one command handler run on a command with the given parameters: final states"""

    def __init__(self, cx, f, letters, types=None):
        self.cx, self.f, self.letters = cx, f, letters
        cx.funcs.add(f['q'])
        self.types = types or {}
        self.E = Engine(cx.p, nomerge=True, unroll=len(letters) + 1, on_call=self.call, skip=logskip(cx.p))
        a = {}
        self.roots = {}
        for i, prm in enumerate(f['p']):
            if 'parsed_command' in prm['ty']: a[prm['n']] = LV(CMD, ()) if prm['ty'].endswith('&') else arg(i)
            elif prm['ty'].replace(' ', '').startswith('position'): a[prm['n']] = arg(0) if not prm['ty'].endswith('&') else LV(POS, ())
            else: a[prm['n']] = arg(i)
        st = State(mon=None)
        for l in letters:
            t = self.types.get(l, 'F')
            for w, x in (('name', C(l)), ('value_type', C(ord(t))), ('double_value', val(l) if t == 'F' else C(0)),
                         ('unsigned_long_value', val(l) if t == 'U' else C(0)), ('string_value', C(''))):
                st.store(CMD, ('parameters', ('[]', C(letters.index(l))), w), x)
        self.outs = [(k, s, v) for k, s, v in self.E.run(f, st, args=a) if k in ('R', 'N') and not contradictory(s)]

    def call(self, E, s, ci):
        t = ci.this
        if ci.q == 'position::get_current_extruder' and isinstance(t, LV): return [(s, tool_place(s, t, s.load(t.root, t.path + ('current_tool',))))]
        if ci.q == 'position::get_extruder' and isinstance(t, LV): return [(s, tool_place(s, t, ci.args[0]))]
        if isinstance(t, LV) and t.path and t.path[-1] == 'parameters' and (t.root == CMD):
            n = ci.name
            if n in ('size', 'length'): return [(s, C(len(self.letters)))]
            if n == 'empty': return [(s, C(0 if self.letters else 1))]
            if n in ('operator[]', 'at') and ci.args and is_c(ci.args[0]): return [(s, LV(CMD, t.path + (('[]', ci.args[0]),)))] if ci.args[0][1] < len(self.letters) else []
            if n in ('begin', 'cbegin'): return [(s, LV(CMD, t.path + (('[]', C(0)),)).addr())]
            if n in ('end', 'cend'): return [(s, LV(CMD, t.path + (('[]', C(len(self.letters))),)).addr())]
        return None


AX = ('', '_null', '_offset', '_firmware_offset', '_homed')
MODES = ('is_relative', 'is_relative_null', 'is_extruder_relative', 'is_extruder_relative_null')
STATE = [a + x for a in AXES for x in AX] + list(MODES) + ['is_metric', 'is_metric_null', 'f', 'f_null', 'current_tool', 'num_extruders', 'p_extruders']
EXT = ('e', 'e_offset', 'x_firmware_offset', 'y_firmware_offset', 'z_firmware_offset', 'retraction_length', 'extrusion_length_total')
def tool(i): return ('tool', POS, (), i)


def old(*path): return fld(('init', POS), *path)
def oldt(i, w): return fld(('init', tool(i)), w)


class After:
    """comparison of one final state of a handler with what the command should do"""

    def __init__(self, cx, f, s, what, code):
        self.cx, self.f, self.s, self.what, self.code = cx, f, s, what, code
        self.done = set()
        self.raw = any(r[0] == 'deref' and r != POS for r in s.env)

    def now(self, w): return self.s.load(POS, (w,))
    def cur(self): return old('current_tool')
    def ext(self, w, i=None): return self.s.load(tool(i or self.cur()), (w,))

    def is_(self, found, want, msg):
        if self.raw and not equal(found, want):
            self.cx.undecided.append((self.code, self.cx.at(self.f, None), 'per-tool state addressed directly', show(found)[:150])); return
        self.cx.same(found, want, self.code, self.f, msg + " [" + self.what + "]", facts=self.s.facts, tries=40)

    def set(self, w, v, msg): self.done.add(w); self.is_(self.now(w), v, msg)
    def set_ext(self, w, v, msg): self.done.add(('e', w)); self.is_(self.ext(w), v, msg)

    def gcode(self, a, v, msg):
        """the coordinate of axis a in g-code terms"""
        self.done |= {a + '_offset', a}
        self.is_(add(sub(self.now(a), self.now(a + '_offset')), self.now(a + '_firmware_offset')), v, msg)

    def rest(self, skip=(), skip_ext=(), cond=None):
        """everything not mentioned is unchanged"""
        for w in STATE:
            if w not in self.done and w not in skip and self.now(w) != old(w): self.is_(self.now(w), old(w), "%s is left alone" % w)
        for w in EXT:
            if ('e', w) not in self.done and w not in skip_ext: self.is_(self.ext(w), oldt(self.cur(), w), "the tool's %s is left alone" % w)
        for r in [r for r in self.s.env if r[0] == 'tool']:
            for w in EXT:
                if w in skip_ext or (r == tool(self.cur())): continue
                self.is_(self.s.load(r, (w,)), fld(('init', r), w), "the state of the tools is left alone (%s)" % w)
        self.cx.ob(True, self.code, self.f, "nothing else changes [%s]" % self.what)


def subsets(letters):
    for n in range(len(letters) + 1):
        for c in combinations(letters, n): yield list(c)


def outcomes(cx, f, letters, conds=(), types=None):
    """final states of a handler, refined until every condition of conds is decided"""
    h = Handler(cx, f, letters, types)
    for k, s, v in h.outs:
        if k != 'R' and k != 'N': continue
        for t in cases(s, list(conds)):
            yield t


def holds(s, t):
    """the value of t in s, which decides it"""
    if is_c(t): return bool(t[1])
    if t in s.facts: return s.facts[t]
    if entails(s, t): return True
    return False


def extruder_access(cx, code):
    """get_extruder(i) and get_current_extruder() give p_extruders[i brought into 0 .. num_extruders - 1]"""
    for q in ('position::get_current_extruder', 'position::get_extruder'):
        f = cx.p.find(q)
        E, outs = paths(cx, f)
        n = 0
        for k, s, v in outs:
            if k != 'R' or contradictory(s): continue
            n += 1
            lv = v if isinstance(v, LV) else LV(v[1], v[2]) if v and v[0] == 'lvref' else None
            if lv is None: cx.undecided.append((code, cx.at(f), 'returns', str(v)[:100])); continue
            i = next((x[1] for x in lv.path if isinstance(x, tuple) and x[0] == '[]'), C(0))
            num = s.load(('this', 'position'), ('num_extruders',))
            want = arg(0) if 'get_extruder' in q else s.load(('this', 'position'), ('current_tool',))
            in_range(cx, code, f, s, i, want, num)
        cx.need(n, 1, 'paths of ' + q)


def in_range(cx, code, f, s, i, want, num, node=None):
    """index i of this path is the number want brought into 0 .. num - 1: decided over all small integers that satisfy the path"""
    import random
    bad = None
    tried = 0
    at = set(pit.atoms_of(i)) | {a for t, b in facts_of(s) for a in pit.atoms_of(t)}
    for n_ in range(1, COUNTS):
        for w in range(-3, 7):
            v = pit.Val(random.Random(1))
            v.set(want, w); v.set(num, n_)
            try:
                if not all(bool(v.ev(t)) == b for t, b in facts_of(s)): continue
                got = v.ev(i)
            except pit.Undef: continue
            tried += 1
            if got != min(max(w, 0), n_ - 1): bad = (w, n_, got)
    if bad and not at <= {want, num} | {('this',)} | set(ROOTS):
        cx.undecided.append((code, cx.at(f), show(i)[:150], str(bad)))
        bad = None
    cx.ob(bad is None, code, f, "the tool number is brought into the configured range before it is used as an index", node,
          bad and "tool number %s of %s tools gives index %s" % bad)
    return tried


ROOTS = [('init', ('this', 'position')), ('init', ('param', '#0')), ('init', ('this', 'gcode_position')), ('init', POS)]


def ite(c, a, b): return ('ite', c, a, b)


@rule('P24', DOM + "Every command handler of the tracker's table is run on symbolic parameters, for every subset of the letters it knows; each final state is compared field by field with the effect of the command.")
def p24(cx):
    table, _ = handlers(cx)
    this = lambda w: fld(('init', ('this', 'gcode_position')), w)
    def fn(c):
        f = table.get(c)
        return f
    n = 0
    # modes
    for c, rel in (('G90', 0), ('G91', 1), ('M82', 0), ('M83', 1)):
        f = fn(c)
        if f is None: continue
        infl = this('g90_influences_extruder_')
        for S in outcomes(cx, f, [], [infl] if c[0] == 'G' else []):
            n += 1
            A = After(cx, f, S, c, 'mode')
            word = 'relative' if rel else 'absolute'
            if c[0] == 'G':
                A.set('is_relative', C(rel), "%s sets %s positioning" % (c, word))
                A.set('is_relative_null', C(0), "the positioning mode is known after %s" % c)
            if c[0] == 'M' or holds(S, infl):
                A.set('is_extruder_relative', C(rel), "%s sets %s extrusion" % (c, word))
                A.set('is_extruder_relative_null', C(0), "the extrusion mode is known after %s" % c)
            A.rest()
    # commands without effect on coordinates and modes
    for c in ('G10', 'G11', 'G20', 'G21', 'M207', 'M208', 'M218', 'M563', 'T'):
        f = fn(c)
        if f is None: continue
        for L in ([], ['P', 'X', 'Y', 'Z'], ['T', 'X', 'Y', 'Z'], ['S']):
            for S in outcomes(cx, f, L, [], {'T': 'U'} if c == 'T' else None):
                A = After(cx, f, S, ' '.join([c] + L), 'other-modes')
                A.rest(skip=('is_metric', 'is_metric_null') if c in ('G20', 'G21') else ('current_tool',) if c == 'T' else (),
                       skip_ext=('x_firmware_offset', 'y_firmware_offset', 'z_firmware_offset') if c in ('G10', 'M218') else ())
    # G28
    f = fn('G28')
    if f:
        for L in subsets('XYZ'):
            none = [this('home_%s_none_' % a) for a in AXES]
            for S in outcomes(cx, f, L, none):
                n += 1
                A = After(cx, f, S, ' '.join(['G28'] + L), 'home')
                for a in AXES:
                    if a.upper() in L or not L:
                        A.set(a + '_homed', C(1), "%s is homed" % a)
                        if not holds(S, this('home_%s_none_' % a)):
                            A.set(a, this('home_%s_' % a), "%s is at its home position" % a)
                            A.set(a + '_null', C(0), "%s is known after homing to a configured position" % a)
                A.rest()
    # G92
    f = fn('G92')
    if f:
        for L in subsets('XYZEO'):
            L = L if len(L) % 2 else L[::-1]
            conds = [old(a + w) for a in AXES if a.upper() in L or not L for w in (('_null', '_homed') if L else ('_null',))]
            for S in outcomes(cx, f, L, conds):
                n += 1
                A = After(cx, f, S, ' '.join(['G92'] + L), 'set-position')
                for a in AXES:
                    if 'O' in L: A.set(a + '_homed', C(1), "the O parameter marks %s as homed" % a)
                    if a.upper() in L:
                        A.gcode(a, val(a.upper()), "%s reads the given value" % a)
                        A.set(a + '_null', C(0), "%s is known" % a)
                        if not holds(S, old(a + '_null')) and ('O' in L or holds(S, old(a + '_homed'))):
                            A.set(a, old(a), "%s does not move" % a)
                    elif not L and not holds(S, old(a + '_null')):
                        A.gcode(a, C(0), "%s reads zero when no axis is named" % a)
                        A.set(a, old(a), "%s does not move" % a)
                if 'E' in L or not L:
                    A.done |= {('e', 'e'), ('e', 'e_offset')}
                    A.is_(sub(A.ext('e'), A.ext('e_offset')), val('E') if L else C(0), "E reads the given value (zero when no axis is named)")
                    A.is_(A.ext('e'), oldt(A.cur(), 'e'), "the extruder does not move")
                A.rest()
    extruder_access(cx, 'tool-state')
    readers(cx, 'readout')
    cx.need(n, 20, 'command effects')


def readers(cx, code):
    """the coordinate accessors"""
    for a in AXES:
        f = cx.p.find('position::get_gcode_' + a, optional=True)
        if f:
            th = lambda w: fld(('init', ('this', f['cls'])), w)
            for k, s, v in paths(cx, f)[1]:
                if k == 'R': cx.same(retval(s, v), add(sub(th(a), th(a + '_offset')), th(a + '_firmware_offset')), code, f, "the reported %s is the machine coordinate less its offset plus the tool's offset" % a, facts=s.facts)
    f = cx.p.find('extruder::get_offset_e', optional=True)
    if f:
        th = lambda w: fld(('init', ('this', f['cls'])), w)
        for k, s, v in paths(cx, f)[1]:
            if k == 'R': cx.same(retval(s, v), sub(th('e'), th('e_offset')), code, f, "the reported E is the extruder coordinate less its offset", facts=s.facts)


@rule('P25', DOM + "Move handlers are run on symbolic parameters for every subset of their letters and every mode; each final state is compared with the coordinates the move commands.")
def p25(cx):
    table, _ = handlers(cx)
    n = 0
    for c in ('G0', 'G1', 'G2', 'G3'):
        f = table.get(c)
        if f is None: continue
        for L in subsets('XYZEF'):
            if c in ('G2', 'G3'): L = ['I', 'J'] + L
            elif len(L) % 2: L = L[::-1]
            conds = []
            for w in (['is_relative_null', 'is_relative'] if set(L) & set('XYZ') else []) + (['is_extruder_relative_null', 'is_extruder_relative'] if 'E' in L else []) + [a + '_null' for a in AXES if a.upper() in L]:
                conds.append(old(w))
            for S in outcomes(cx, f, L, conds):
                n += 1
                A = After(cx, f, S, ' '.join([c] + L), 'move')
                rel = holds(S, old('is_relative'))
                known = not holds(S, old('is_relative_null'))
                skip = []
                for a in AXES:
                    if a.upper() not in L: continue
                    v = val(a.upper())
                    if known and not rel:
                        A.gcode(a, v, "absolute move: %s reads the commanded value" % a)
                        A.set(a + '_null', C(0), "%s is known after an absolute move" % a)
                        A.set(a + '_offset', old(a + '_offset'), "the offset of %s is left alone" % a)
                        A.set(a + '_firmware_offset', oldt(A.cur(), a + '_firmware_offset'), "the tool's offset is applied to %s" % a)
                    elif known and not holds(S, old(a + '_null')):
                        A.set(a, add(old(a), v), "relative move: %s moves by the commanded amount" % a)
                    else:
                        skip += [a, a + '_null']
                sk_e = []
                if 'E' in L:
                    if holds(S, old('is_extruder_relative_null')): sk_e.append('e')
                    elif holds(S, old('is_extruder_relative')): A.set_ext('e', add(oldt(A.cur(), 'e'), val('E')), "relative extrusion: E moves by the commanded amount")
                    else:
                        A.is_(sub(A.ext('e'), A.ext('e_offset')), val('E'), "absolute extrusion: E reads the commanded value")
                        A.done.add(('e', 'e'))
                if 'F' in L:
                    A.set('f', val('F'), "the feed rate is the commanded one")
                    A.set('f_null', C(0), "the feed rate is known")
                A.rest(skip=skip, skip_ext=sk_e)
    extruder_access(cx, 'tool-state')
    readers(cx, 'readout')
    p25_update(cx)
    cx.need(n, 40, 'moves')


CUR, PREV = ('deref', ('init', ('cur',))), ('deref', ('init', ('prev',)))
POINTS = {0: ('init', ('cur',)), 1: ('init', ('prev',))}


class Update:
    """gcode_position::update on abstract current and previous entries; the command handler leaves arbitrary coordinates"""
    WATCH = ('z_relative', 'has_position_changed', 'has_xy_position_changed')
    EW = ('e_relative', 'extrusion_length', 'extrusion_length_total', 'retraction_length', 'is_extruding', 'is_extruding_start', 'is_retracting')

    def __init__(self, cx, f, store=None):
        self.cx, self.f = cx, f
        cx.funcs.add(f['q'])
        self.E = Engine(cx.p, disj=300, key=self.key, on_call=self.call, on_store=store, skip=logskip(cx.p))
        self.E.CAP = 2000
        a = {p['n']: (arg(i) if not p['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, p in enumerate(f['p'])}
        self.outs = [(k, s) for k, s, v in self.E.run(f, State(mon=0), args=a) if k in ('R', 'N') and not contradictory(s)]

    def key(self, s):
        return tuple(s.load(CUR, (w,)) for w in self.WATCH) + tuple(s.load(r, (w,)) for r in sorted((r for r in s.env if r[0] == 'tool' and r[1] == CUR), key=repr) for w in self.EW)

    def entry(self, s, i, this=None):
        return LV(('deref', POINTS[i]), ())

    def call(self, E, s, ci):
        t, q = ci.this, ci.q or ''
        n = ci.name
        if q == 'gcode_position::add_position':
            s = s.copy()
            s.store(CUR, ('has_position_changed',), C(0)); s.store(CUR, ('has_xy_position_changed',), fld(('init', CUR), 'has_xy_position_changed'))
            s.mon = 1 if s.mon == 0 else 9
            return [(s, None)]
        if q.startswith('circular_buffer<position>::') and n in ('operator[]', 'get', 'at') and ci.args and is_c(ci.args[0]) and ci.args[0][1] in POINTS:
            return [(s, LV(('deref', POINTS[ci.args[0][1]]), ()))]
        if q.startswith('gcode_comment_processor::'): return [(s, ci_result(ci))]
        if q == 'position::get_current_extruder' and isinstance(t, LV): return [(s, tool_place(s, t, s.load(t.root, t.path + ('current_tool',))))]
        if q == 'position::get_extruder' and isinstance(t, LV): return [(s, tool_place(s, t, ci.args[0]))]
        if s.mon == 1 and ((ci.kind == 'call' and not q and ci.fv is not None) or q.startswith('gcode_position::process_')) and arg_is(ci, POINTS[0]):
            s = s.copy()
            for w in STATE + ['x_null', 'y_null', 'z_null']: s.store(CUR, (w,), ('after', w))
            s.mon = 2
            return [(s, None)]
        return None


def arg_is(ci, p): return p in ci.args or any(isinstance(a, LV) and a.root == ('deref', p) for a in ci.args)
def ci_result(ci): return None


def p25_update(cx):
    f = cx.p.find('gcode_position::update')
    U = Update(cx, f)
    n = 0
    for k, s in U.outs:
        if s.mon != 2: continue
        n += 1
        t = ('after', 'current_tool')
        rc, rp = ('tool', CUR, (), t), ('tool', PREV, (), t)
        now = lambda w: s.load(rc, (w,))
        was = lambda w: fld(('init', rc), w)
        er = sub(was('e'), fld(('init', rp), 'e'))
        ck = lambda a, b, m: cx.same(a, b, 'update', f, m, facts=s.facts, tries=40)
        ck(now('e_relative'), er, "the relative extrusion is the difference of the tool's extruder coordinate to the previous entry")
        ck(now('e'), was('e'), "the extruder coordinate is the one the command left")
        for a in AXES: ck(s.load(CUR, (a,)), ('after', a), "%s is the one the command left" % a)
        ck(s.load(CUR, ('z_relative',)), sub(('after', 'z'), fld(('init', PREV), 'z')), "the relative z is the difference to the previous entry")
        ch = s.load(CUR, ('has_position_changed',))
        for S in cases(s, [ch]):
            if holds(S, ch):
                cs = lambda a, b, m: cx.same(a, b, 'update', f, m, facts=S.facts, tries=40)
                cs(now('extrusion_length_total'), add(was('extrusion_length_total'), er), "the total extrusion grows by the extruder's movement")
                cs(sub(now('retraction_length'), now('extrusion_length')), sub(was('retraction_length'), er), "retraction and extrusion lengths add up to the extruder's movement")
    cx.need(n, 1, 'paths of update that run a command')
    t = ('after', 'current_tool')
    base = {}
    for w in STATE: base[('after', w)] = base[fld(('init', PREV), w)] = 0
    for r in (('tool', CUR, (), t), ('tool', PREV, (), t)): base[fld(('init', r), 'e')] = 2.0
    for a, v in zip(AXES, (10.0, 20.0, 0.3)): base[('after', a)] = base[fld(('init', PREV), a)] = v
    tests = [('nothing moved', {}, False)] + [("%s moved" % a, {('after', a): base[('after', a)] + d}, True) for a in AXES for d in (0.5, -0.5)] + \
        [("E moved", {fld(('init', ('tool', CUR, (), t)), 'e'): 2.0 + d}, True) for d in (0.5, -0.5)] + [("%s became known" % a, {fld(('init', PREV), a + '_null'): 1}, True) for a in AXES]
    for what, d, want in tests:
        b = dict(base); b.update(d)
        got = decide(U, b, lambda s: s.load(CUR, ('has_position_changed',)))
        if len(got) != 1: cx.undecided.append(('moved', cx.at(f), what, str(got))); continue
        cx.ob(got == {want}, 'moved', f, "the entry is marked as moved exactly when a coordinate changed (%s)" % what, detail="marked %s" % got)
    rc, rps = ('tool', CUR, (), t), [('tool', PREV, (), t), ('tool', PREV, (), fld(('init', PREV), 'current_tool'))]
    for retr, ext, start, de in [(0, x, y, d) for x, y in ((0, 0), (1, 1), (1, 0)) for d in (0.5, -0.75, 0)] + [(2.0, 0, 0, d) for d in (0.5, -0.5, 0, 2.0, 3.25)]:
        b = dict(base)
        b[('after', 'x')] += 1
        for r in [rc] + rps:
            b[fld(('init', r), 'retraction_length')] = retr; b[fld(('init', r), 'extrusion_length')] = 1.5 * ext
            b[fld(('init', r), 'is_extruding')] = ext; b[fld(('init', r), 'is_extruding_start')] = start
            b[fld(('init', r), 'is_retracting')] = b[fld(('init', r), 'is_retracting_start')] = 0
            b[fld(('init', r), 'e')] = 2.0
        b[fld(('init', rc), 'e')] = 2.0 + de
        what = "retracted by %g%s, then E moves by %g" % (retr, ', starting to extrude' if start else ', extruding' if ext else '', de)
        left = max(retr - de, 0.0); out = max(de - retr, 0.0)
        for w, want in (('extrusion_length', out), ('retraction_length', left), ('is_extruding', out > 0), ('is_extruding_start', out > 0 and not ext), ('is_retracting', left > retr)):
            got = decide(U, b, lambda s: s.load(rc, (w,)), lambda x: round(float(x), 6))
            if len(got) != 1: cx.undecided.append(('lengths', cx.at(f), what, w, str(got))); continue
            cx.ob(got == {round(float(want), 6)}, 'lengths', f, "%s follows the extruder (%s)" % (w, what), detail="it becomes %s instead of %g" % (got, want))


def decide(U, b, value, read=bool):
    """truth of a term on the paths of update that the valuation b satisfies"""
    import random
    out = set()
    for k, s in U.outs:
        if s.mon != 2: continue
        v = pit.Val(random.Random(1))
        for t, x in b.items(): v.set(t, x)
        try:
            if not all(bool(v.ev(t)) == x for t, x in facts_of(s) if depends(t, b)): continue
            w = value(s)
            if read is not bool and not all(a in b or a[0] == 'init' for a in pit.atoms_of(w)): return set()
            out.add(read(v.ev(w)))
        except pit.Undef: return set()
    return out


def depends(t, b):
    at = pit.atoms_of(t)
    return bool(at) and all(a in b or a[0] == 'init' for a in at) and any(a in b for a in at)


# ------------------------------------------------------------------ P26
from sa.flow import Flow

HIST = 'circular_buffer<position>'
GETTERS = ('operator[]', 'get', 'get_index_position', 'count', 'get_max_size')


def movers(p):
    """functions that change the history or may move its entries, directly or through a call"""
    base = {f['fid'] for f in p.funcs.values() if f.get('cls') == HIST and f['q'].rsplit('::', 1)[1] not in GETTERS and not f.get('ctor')}
    out = dict.fromkeys(base)
    ch = True
    while ch:
        ch = False
        for f in p.funcs.values():
            if f['fid'] in out or not f.get('b'): continue
            for c in calls(f['b']):
                if c.get('fid') in out: out[f['fid']] = c; ch = True; break
    return out


def is_entry_type(ty):
    return re.sub(r'\bconst\b|\s', '', ty) in ('position*', 'position&', 'extruder*', 'extruder&')


def bare(n):
    while isinstance(n, dict) and n.get('k') == 'cast' and isinstance(n.get('e'), dict): n = n['e']
    return n


class Pointers(Flow):
    """typestate of local pointers and references into the history: fresh, stale (the history changed since).
    A state is a set of configurations (values of the boolean locals, pointer states), so that tests of a flag select the paths that set it."""

    def __init__(self, p, f, mv, src):
        super().__init__(p)
        self.f, self.mv, self.src = f, mv, src
        self.bad, self.n = [], 0
        self.bools = {v['id'] for x in walk(f['b']) if x.get('k') == 'decl' for v in x['v'] if v['ty'] == 'bool'}
        tested = {x['id'] for c in walk(f['b']) if c.get('k') in ('if', 'while', 'cond', 'bin', 'un') for x in walk([c.get('c'), c.get('a'), c.get('b'), c.get('e')] if c['k'] in ('bin', 'un') else c.get('c') or []) if x.get('k') == 'ref' and x.get('id') in self.bools}
        self.bools &= tested

    def start(self): return {'S': frozenset([frozenset()])}

    def each(self, s, fn):
        out = set()
        for c in s['S']: out |= set(frozenset(x.items()) for x in fn(dict(c)))
        return {'S': frozenset(out)} if out else None

    def tracked(self, s): return {k[1] for c in s['S'] for k, _ in c if k[0] == 'p'}

    def from_history(self, n, s):
        tr = self.tracked(s)
        for x in walk(n):
            if x.get('k') == 'call' and x.get('fid') in self.src: return True
            if x.get('k') == 'ref' and x.get('id') in tr: return True
        return False

    def put(self, s, k, v): return self.each(s, lambda c: [{**c, k: v}])

    def put_bool(self, s, i, n):
        n = bare(n) if n is not None else None
        if n is not None and n.get('k') == 'bool': return self.put(s, ('b', i), bool(n['v']))
        return self.each(s, lambda c: [{**c, ('b', i): True}, {**c, ('b', i): False}])

    def declare(self, v, s):
        if is_entry_type(v['ty']) and v.get('i') is not None and self.from_history(v['i'], s):
            self.n += 1
            s = self.put(s, ('p', v['id']), 'fresh')
        elif v['id'] in self.bools: s = self.put_bool(s, v['id'], v.get('i'))
        return s

    def expr(self, n, s):
        if isinstance(n, dict) and n.get('k') == 'asg' and n['a'].get('k') == 'ref' and s is not None:
            a = n['a']
            if is_entry_type(a.get('ty', '')) and a['ty'].endswith('*'):
                s = self.expr(n['b'], s)
                if s is None: return s
                if self.from_history(n['b'], s):
                    self.n += 1
                    return self.put(s, ('p', a['id']), 'fresh')
                return self.each(s, lambda c: [{k: v for k, v in c.items() if k != ('p', a['id'])}])
            if a.get('id') in self.bools:
                s = self.expr(n['b'], s)
                return self.put_bool(s, a['id'], n['b'] if n.get('op') == '=' else None) if s is not None else None
        return super().expr(n, s)

    def branch(self, c, s, truth):
        c = bare(c)
        if c.get('k') == 'ref' and c.get('id') in self.bools:
            k = ('b', c['id'])
            return self.each(s, lambda f: [f] if f.get(k, truth) == truth else [])
        return s

    def visit(self, n, s):
        if n.get('k') == 'ref' and any(dict(c).get(('p', n.get('id'))) == 'stale' for c in s['S']):
            self.bad.append((n, s))
        if n.get('k') == 'call' and n.get('fid') in self.mv:
            return self.each(s, lambda c: [{k: ('stale' if k[0] == 'p' else v) for k, v in c.items()}])
        return s


def pushed(cx, f):
    """the values add_position(command) puts in front of the history: [(state, [value])]"""
    def on(E, s, ci):
        q, n = ci.q or '', ci.name
        if q.startswith(HIST + '::'):
            if n in ('operator[]', 'get') and ci.args: return [(s, LV(('entry', ci.args[0]), ()))]
            if n == 'push_front': s = s.copy(); s.mon = s.mon + (ci.args[0],); return [(s, None)]
            if n in ('count', 'get_max_size'): return None
            s = s.copy(); s.mon = s.mon + (('other', n),); return [(s, None)]
        return None
    E = Engine(cx.p, nomerge=True, on_call=on, skip=logskip(cx.p))
    a = {p['n']: (arg(i) if not p['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, p in enumerate(f['p'])}
    cx.funcs.add(f['q'])
    return [(s, v) for k, s, v in E.run(f, State(mon=()), args=a) if k in ('R', 'N') and not contradictory(s)]


RESET = ('is_layer_change', 'is_height_change', 'is_height_increment_change', 'is_xy_travel', 'is_xyz_travel', 'has_position_changed', 'has_xy_position_changed',
         'has_received_home_command', 'gcode_ignored', 'feature_type_tag', 'z_relative', 'is_empty', 'command', 'p_extruders', 'file_line_number', 'gcode_number', 'file_position')


@rule('P26', DOM + "Entry creation, update and undo are interpreted with the history as an abstract sequence; pointers into it are followed by a typestate dataflow over every function that fetches one.")
def p26(cx):
    p = cx.p
    n = 0
    first = fld(('init', ('entry', C(0))))
    fields = [x for x in p.fields('position')] if hasattr(p, 'fields') else []
    names = [x['n'] if isinstance(x, dict) else x for x in fields]
    for f in p.funcs.values():
        if f['q'] != 'gcode_position::add_position' or not f.get('b'): continue
        cmd = any('parsed_command' in x['ty'] for x in f['p'])
        for s, v in pushed(cx, f):
            n += 1
            ok = len(s.mon) == 1 and not (s.mon[0][0] == 'other')
            cx.ob(ok, 'one-entry', f, "exactly one entry is put in front of the history", detail=str([show(x)[:80] for x in s.mon]))
            if not ok or not cmd: continue
            for w in names:
                if w in RESET: continue
                cx.same(fld(s.mon[0], w), fld(first, w), 'copy-of-previous', f, "the new entry starts with the previous entry's %s" % w, facts=s.facts)
            cx.same(fld(s.mon[0], 'command'), fld(('init', ('param', '#0'))), 'own-command', f, "the new entry carries the command it was made for", facts=s.facts)
            for r in s.env:
                if r[0] == 'entry':
                    for w in names:
                        if w != 'p_extruders': cx.same(s.load(r, (w,)), fld(('init', r), w), 'previous-untouched', f, "the previous entry is left alone (%s)" % w, facts=s.facts)
    # update: one entry per command, made before anything is tracked; the previous entry is only read
    f = p.find('gcode_position::update')
    log = []

    def store(E, s, lv, v, e, fr):
        r = lv.root
        if r == CUR and s.mon == 0: log.append(('early', e))
        if r == PREV or (r[0] == 'tool' and r[1] == PREV): log.append(('previous', e))
    U = Update(cx, f, store)
    for k, s in U.outs:
        n += 1
        cx.ob(s.mon in (1, 2), 'one-entry', f, "each update makes exactly one entry, on every path", detail="entries made: %s" % ('none' if s.mon == 0 else 'several'))
    for w, e in log[:6]:
        cx.ob(False, 'previous-untouched', f, "update writes only the entry it made" + (" (written before the entry was made)" if w == 'early' else " (the previous entry is written)"), node=e)
    cx.ob(not log, 'previous-untouched', f, "update writes only the entry it made")
    # access and undo
    for q, i in (('get_current_position_ptr', 0), ('get_previous_position_ptr', 1), ('get_current_position', 0), ('get_previous_position', 1), ('get_position_ptr', None), ('get_position', None)):
        g = p.find('gcode_position::' + q, optional=True)
        if not g: continue
        for s, v in pushed(cx, g):
            n += 1
            want = ('entry', arg(0) if i is None else C(i))
            got = v[1] if v is not None and v[0] == 'addr' and not v[2] else v[1] if v is not None and v[0] == 'init' else None
            if got is None: cx.undecided.append(('access', cx.at(g), str(v)[:100], '')); continue
            cx.ob(got == want, 'access', g, "entry %s is the one asked for" % ('n' if i is None else i), detail=str(got))
    undo(cx)
    # growth is only ever growth
    g = p.find('gcode_position::grow_max_positions', optional=True)
    if g: growth(cx, g)
    # pointers into the history
    mv = movers(p)
    src = {f['fid'] for f in p.funcs.values() if f.get('cls') == 'gcode_position' and re.sub(r'\s', '', f.get('ret', '')) in ('position*', 'position&') and f['fid'] not in mv}
    src |= {f['fid'] for f in p.funcs.values() if f.get('cls') == HIST and f.get('ret', '').replace(' ', '') == 'position&' and f['fid'] not in mv}
    m = 0
    for f in p.funcs.values():
        if not f.get('b') or f.get('cls') == HIST: continue
        if not any(c.get('fid') in src for c in calls(f['b'])): continue
        cx.funcs.add(f['q'])
        F = Pointers(p, f, mv, src)
        F.run(f, F.start())
        m += F.n
        for x, _ in F.bad[:4]:
            cx.ob(False, 'stale-pointer', f, "%s points into the history, which may have changed since it was fetched" % x.get('n'), node=x)
        cx.ob(not F.bad, 'stale-pointer', f, "pointers into the history are used only while it is unchanged")
    cx.need(m, 2, 'pointers into the history')
    cx.need(n, 4, 'history operations')


def undo(cx):
    """undo_update removes front entries: one, or the number asked for"""
    for f in cx.p.funcs.values():
        if f['q'] != 'gcode_position::undo_update' or not f.get('b'): continue
        for s, v, E in pops(cx, f):
            n = loops.closed(E, s.load(POPS, ()), s)
            if s.mon:
                cx.ob(False, 'undo', f, "undoing an update removes the newest entry and nothing else", detail=str(s.mon)); continue
            if not f['p']: cx.same(n, C(1), 'undo', f, "undoing an update removes exactly one entry", facts=s.facts)
            else:
                for S in cases(s, [lt(arg(0), C(1))]):
                    if any(x[0] == 'phi' for x in subterms(n)):
                        cx.undecided.append(('undo', cx.at(f), show(n)[:100], '')); continue
                    cx.same(n, C(0) if holds(S, lt(arg(0), C(1))) else arg(0), 'undo', f, "as many entries are removed as updates are undone", facts=S.facts)


POPS = ('pops',)


def pops(cx, f):
    def on(E, s, ci):
        q, n = ci.q or '', ci.name
        if q.startswith(HIST + '::'):
            if n in ('operator[]', 'get', 'count', 'get_max_size', 'get_index_position'): return [(s, ('call', n, tuple(ci.args)))]
            s = s.copy()
            if n != 'pop_front': s.mon = (n,)
            s.store(POPS, (), add(s.load(POPS, ()), C(1)))
            return [(s, LV(('popped',), ()))]
        return None
    E = Engine(cx.p, nomerge=True, on_call=on, skip=logskip(cx.p))
    a = {p['n']: arg(i) for i, p in enumerate(f['p'])}
    cx.funcs.add(f['q'])
    st = State(mon=())
    st.store(POPS, (), C(0))
    try: outs = E.run(f, st, args=a)
    except AnalysisError as e:
        cx.undecided.append(('undo', cx.at(f), str(e)[:100], '')); return []
    return [(s, v, E) for k, s, v in outs if k in ('R', 'N') and not contradictory(s)]


def growth(cx, f):
    th = ('init', ('this', 'gcode_position'))
    size = fld(th, 'positions_', 'max_size_')

    def on(E, s, ci):
        q, n = ci.q or '', ci.name
        if q.startswith(HIST + '::') and n == 'resize':
            s = s.copy(); s.mon = s.mon + (ci.args[0],); return [(s, None)]
        if q.startswith(HIST + '::') and n not in GETTERS: s = s.copy(); s.mon = s.mon + (None,); return [(s, None)]
        return None
    E = Engine(cx.p, nomerge=True, on_call=on, skip=logskip(cx.p))
    cx.funcs.add(f['q'])
    for k, s, v in E.run(f, State(mon=()), args={p['n']: arg(i) for i, p in enumerate(f['p'])}):
        for x in s.mon:
            if x is None: cx.ob(False, 'growth', f, "growing the history only resizes it"); continue
            bad = None
            import random
            for m in range(1, COUNTS):
                for a in range(-2, 12):
                    w = pit.Val(random.Random(1)); w.set(size, m); w.set(arg(0), a)
                    try:
                        if all(bool(w.ev(t)) == b for t, b in facts_of(s)) and w.ev(x) < m: bad = (m, a)
                    except pit.Undef: pass
            cx.ob(bad is None, 'growth', f, "the history is never resized below the entries it holds", detail=bad and "size %d, asked for %d" % bad)


# ------------------------------------------------------------------ P31
PER_TOOL = {'p_extruders', 'retraction_lengths_', 'z_lift_heights_', 'retraction_lengths', 'z_lift_heights', 'x_firmware_offsets', 'y_firmware_offsets'}


def last_name(t):
    while isinstance(t, tuple) and t and t[0] == 'fld': 
        if isinstance(t[2], str): return t[2]
        t = t[1]
    return t[1] if isinstance(t, tuple) and t and t[0] == 'after' else None


def index_ok(E, s, i, f):
    """index term i is in 0 .. N-1 on this path, for N tools (every tool count is N, the tracked tool is in range): None or a counterexample; 'unknown'"""
    import random
    atoms = set()
    for t in [i] + [t for t, _ in facts_of(s)]:
        for x in subterms(t):
            if x[0] in ('init', 'phi', 'after', 'join') or (x[0] == 'fld' and last_name(x) and x[1][0] in ('init', 'fld')): atoms.add(x)
    atoms = {a for a in atoms if not any(a is not b and a in set(subterms(b)) for b in atoms)}
    counts = {a for a in atoms if str(last_name(a)).startswith('num_extruders') or (a[0] == 'init' and 'num_extruders' in str(a))}
    tools = {a for a in atoms if last_name(a) == 'current_tool'}
    ia = {a for a in atoms if a in set(subterms(i))}
    free = sorted(ia - counts - tools, key=repr)
    if len(free) > 1: return 'unknown'
    if any(a[0] == 'join' for a in free): return 'unknown'
    relevant = [(t, b) for t, b in facts_of(s) if set(x for x in subterms(t) if x in atoms) and set(x for x in subterms(t) if x in atoms) <= (ia | counts | tools)]
    for N in range(1, COUNTS):
        for tool_ in range(N):
            for x in (range(-3, 8) if free else [0]):
                if free and free[0][0] == 'phi' and x < 0: continue
                v = pit.Val(random.Random(1))
                for a in counts: v.set(a, N)
                for a in tools: v.set(a, tool_)
                for a in free: v.set(a, x)
                try:
                    if not all(bool(v.ev(t)) == b for t, b in relevant): continue
                    got = v.ev(i)
                except pit.Undef: return 'unknown'
                if not (0 <= got < N): return (N, tool_, x, got)
    return None


def from_zero_up(E, i):
    """loop variables in i start at or above zero and grow"""
    for x in subterms(i):
        if x[0] != 'phi': continue
        good = False
        for li in loops.infos(E):
            if li.lid == x[1]:
                e0 = li.entry.get(x)
                good = e0 is not None and is_c(e0) and e0[1] >= 0 and (li.delta.get(x) or 0) >= 0
        if not good: return False
    return True


@rule('P31', DOM + "Every subscript of per-tool state is decided under the conditions of its path for all tool counts and numbers (small-model enumeration of the integer terms); the tool number written by a T command is compared with the clamped number; logger and level numbers are followed to the constants they come from.")
def p31(cx):
    p = cx.p
    table, _ = handlers(cx)
    n = 0
    # the T command
    f = table.get('T')
    if f:
        zb = fld(('init', ('this', 'gcode_position')), 'zero_based_extruder_')
        num = fld(('init', ('this', 'gcode_position')), 'num_extruders_')
        import random
        for S in outcomes(cx, f, ['T'], [zb], {'T': 'U'}):
            n += 1
            t = S.load(POS, ('current_tool',))
            off = 0 if holds(S, zb) else 1
            bad, und = None, False
            for N in range(1, COUNTS):
                for w in range(0, 8):
                    v = pit.Val(random.Random(1)); v.set(num, N); v.set(val('T'), w); v.set(zb, 1 - off)
                    for a in pit.atoms_of(t):
                        if a not in (num, val('T'), zb): v.set(a, 0)
                    try:
                        if not all(bool(v.ev(x)) == b for x, b in facts_of(S)): continue
                        if v.ev(t) != min(max(w - off, 0), N - 1): bad = (w, N, off, v.ev(t))
                    except pit.Undef: und = True
            if und: cx.undecided.append(('tool-clamp', cx.at(f), show(t)[:150], ''))
            cx.ob(bad is None, 'tool-clamp', f, "the tool selected by T is brought into the configured range", detail=bad and "T%d with %d tools (%d-based): tool %s" % bad)
        for S in outcomes(cx, f, ['T'], [], {'T': 'F'}):
            pass
    # other writes of the tracked tool
    for g in p.funcs.values():
        for x in walk([g.get('b') or [], g.get('inits') or []]):
            if x.get('k') != 'asg' or x['a'].get('k') != 'mem' or x['a'].get('f') != 'current_tool': continue
            if f and g['fid'] == f['fid']: continue
            n += 1
            r = bare(x['b'])
            if r.get('k') == 'mem' and r.get('f') == 'current_tool': cx.ob(True, 'tool-write', g, "the tool of another position"); continue
            if g.get('ctor') and g.get('cls') == 'position' and const_of(r) is not None: cx.ob(const_of(r) in (0, -1), 'tool-write', g, "a new position starts with the first (or no) tool", node=x); continue
            clamped_write(cx, g, x)
    # subscripts of per-tool state
    m = 0
    for g in p.funcs.values():
        if not g.get('b'): continue
        sites = [x for x in walk(g['b']) if x.get('k') == 'idx' and mem_name(x) in PER_TOOL]
        if not sites: continue
        cx.funcs.add(g['q'])
        m += len(sites)
        subscripts(cx, g)
    extruder_access(cx, 'tool-range')
    cx.need(m, 3, 'subscripts of per-tool state')
    cx.need(n, 2, 'writes of the tool number')
    loggers(cx)


def mem_name(x):
    b = bare(x.get('b') or x.get('a') or {})
    if isinstance(b, list): b = bare(b[0])
    return b.get('f') if b.get('k') == 'mem' else b.get('n') if b.get('k') == 'ref' else None


def const_of(n):
    n = bare(n)
    if n.get('cv') is not None: return n['cv']
    if n.get('k') in ('int', 'bool'): return n.get('v')
    return None


def subscripts(cx, g):
    seen = {}
    recs = []

    def see(E, s, lv, e):
        if lv.root[0] != 'deref' or not lv.path or not (isinstance(lv.path[0], tuple) and lv.path[0][0] == '[]'): return
        nm = last_name(lv.root[1])
        if nm not in PER_TOOL: return
        recs.append((s.copy(), lv.path[0][1], e, nm))

    def on(E, s, ci):
        q = ci.q or ''
        if q.startswith(HIST + '::') and ci.name in ('operator[]', 'get') and ci.args and is_c(ci.args[0]) and ci.args[0][1] in POINTS: return [(s, LV(('deref', POINTS[ci.args[0][1]]), ()))]
        if ci.kind == 'call' and g['q'].rsplit('::', 1)[1] != ci.name and re.match(r'set_|delete_|get_gcode_functions', ci.name or ''): return [(s, ('call', ci.name, ()))]
        if q.startswith(HIST + '::') or q in ('gcode_position::add_position',) or q.startswith('gcode_comment_processor::') or q.startswith('parsed_command'): return [(s, ('call', ci.name, ()))]
        if q in ('position::get_current_extruder', 'position::get_extruder') and isinstance(ci.this, LV) and g['q'] != q:
            return [(s, tool_place(s, ci.this, s.load(ci.this.root, ci.this.path + ('current_tool',)) if not ci.args else ci.args[0]))]
        return None
    a = {p['n']: (arg(i) if not p['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, p in enumerate(g['p'])}
    outs = None
    for kw in (dict(nomerge=True), dict(disj=200, key=lambda s: None)):
        del recs[:]
        E = Engine(cx.p, on_call=on, skip=logskip(cx.p), on_store=lambda E, s, lv, v, e, fr: see(E, s, lv, e), on_load=lambda E, s, lv, v, e, fr: see(E, s, lv, e), **kw)
        E.CAP = 1500
        try: outs = E.run(g, State(mon=None), args=a); break
        except AnalysisError as e: err = e
    if outs is None:
        cx.undecided.append(('tool-range', cx.at(g), str(err)[:120], '')); return
    for k, s, v in outs:
        lv = v if isinstance(v, LV) else LV(v[1], v[2]) if v is not None and v[0] == 'lvref' else None
        if lv is not None: see(E, s, lv, None)
    done = set()
    for s, i, e, nm in recs:
        if contradictory(s): continue
        r = index_ok(E, s, i, g)
        if r != 'unknown' and r is None and any(x[0] == 'phi' for x in subterms(i)) and not from_zero_up(E, i): r = 'unknown'
        if r == 'unknown':
            cx.undecided.append(('tool-range', cx.at(g, e), nm, show(i)[:120])); continue
        cx.ob(r is None, 'tool-range', g, "%s is subscripted only with a tool number in range" % nm, node=e,
              detail=r and "%d tools, current tool %d, value %d: subscript %s" % r)


def clamped_write(cx, g, x):
    """the tool number written here (outside T) is in range on every path"""
    recs = []

    def store(E, s, lv, v, e, fr):
        if lv.path and lv.path[-1] == 'current_tool' and e is x: recs.append((s.copy(), v))
    a = {p['n']: (arg(i) if not p['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, p in enumerate(g['p'])}
    skip = lambda E, s, ci: [(s, None)] if ci.kind == 'call' and (not (ci.node.get('fid') in cx.p.funcs) or ci.q.startswith(HIST) or 'position_args' in ci.q or re.match(r'set_|delete_|get_gcode_functions', ci.name or '')) else None
    for kw in (dict(nomerge=True), dict(disj=200, key=lambda s: None)):
        del recs[:]
        E = Engine(cx.p, on_store=store, skip=logskip(cx.p), on_call=skip, **kw)
        E.CAP = 800
        try: E.run(g, State(mon=None), args=a); break
        except AnalysisError as e: pass
    if not recs: cx.undecided.append(('tool-write', cx.at(g, x), 'path not followed', ''))
    for s, v in recs:
        if contradictory(s): continue
        r = index_ok(E, s, v, g)
        if r == 'unknown': cx.undecided.append(('tool-write', cx.at(g, x), show(v)[:100], '')); continue
        cx.ob(r is None, 'tool-write', g, "the tracked tool is set to a number in range", node=x, detail=r and "%d tools, value %d: tool %s" % (r[0], r[2], r[3]))
    cx.counts['tool-write'] = cx.counts.get('tool-write', 0)


class Origin:
    """where an integer comes from: every constant, call site, assignment and return value that can reach an expression"""

    def __init__(self, cx, N):
        self.cx, self.p, self.N = cx, cx.p, N
        self.seen = set()
        self.bad, self.unknown, self.n = [], [], 0
        if not hasattr(cx, 'callers'):
            cx.callers, cx.field_writes = {}, {}
            for f in self.p.funcs.values():
                for x in walk([f.get('b') or [], f.get('inits') or []]):
                    if x.get('k') == 'call' and x.get('fid'): cx.callers.setdefault(x['fid'], []).append((f, x, x.get('a', [])))
                    elif x.get('k') == 'ctor' and x.get('fid'): cx.callers.setdefault(x['fid'], []).append((f, x, x.get('a', [])))
                    elif x.get('k') == 'asg' and x['a'].get('k') == 'mem': cx.field_writes.setdefault(x['a'].get('q'), []).append((f, x))
                for x in f.get('inits') or []:
                    if isinstance(x, dict) and x.get('f') and (x.get('e') or x.get('i')): cx.field_writes.setdefault(f.get('cls', '') + '::' + x['f'], []).append((f, dict(k='asg', op='=', b=x.get('e') or x.get('i'), l=x.get('l'))))

    def value(self, c, f, n):
        self.n += 1
        if not (isinstance(c, (int, float)) and 0 <= c < self.N): self.bad.append((f, n, c))

    def expr(self, n, f, depth=0):
        n = bare(n)
        if const_of(n) is not None: return self.value(const_of(n), f, n)
        if depth > 8: return self.unknown.append((f, n))
        key = (f['fid'], n.get('k'), n.get('id') or n.get('q') or id(n))
        if key in self.seen: return
        self.seen.add(key)
        k = n.get('k')
        if k == 'cond': self.expr(n['t'], f, depth + 1); self.expr(n['e'], f, depth + 1); return
        if k == 'ref' and n.get('dk') == 'param':
            i = next((i for i, x in enumerate(f['p']) if x['n'] == n['n']), None)
            fids = [f['fid']]
            for g, x, a in sum((self.cx.callers.get(q, []) for q in fids), []):
                if i is not None and i < len(a): self.expr(a[i], g, depth + 1)
            return
        if k == 'ref' and n.get('id') is not None:
            hit = False
            for x in walk(f['b']):
                if x.get('k') == 'decl':
                    for v in x['v']:
                        if v['id'] == n['id'] and v.get('i') is not None: hit = True; self.expr(v['i'], f, depth + 1)
                elif x.get('k') == 'asg' and x['a'].get('k') == 'ref' and x['a'].get('id') == n['id']:
                    hit = True
                    self.expr(x['b'], f, depth + 1) if x.get('op') == '=' else self.unknown.append((f, n))
                elif x.get('k') == 'un' and x.get('op') in ('++', '--') and bare(x['e']).get('id') == n['id']: self.unknown.append((f, n))
            if not hit: self.unknown.append((f, n))
            return
        if k == 'mem':
            ws = self.cx.field_writes.get(n.get('q'), [])
            if not ws: self.unknown.append((f, n))
            for g, x in ws:
                self.expr(x['b'], g, depth + 1) if x.get('op') == '=' else self.unknown.append((g, n))
            return
        if k == 'call' and n.get('fid') in self.p.funcs and self.p.funcs[n['fid']].get('b'):
            return self.returned(self.p.funcs[n['fid']])
        self.unknown.append((f, n))

    def returned(self, g):
        self.cx.funcs.add(g['q'])
        try: E, outs = paths(self.cx, g)
        except AnalysisError: return self.unknown.append((g, g))
        for k, s, v in outs:
            if k != 'R' or v is None or contradictory(s): continue
            if is_c(v): self.value(v[1], g, g); continue
            r = bounded(E, s, v, self.N)
            if r == 'unknown': self.unknown.append((g, g))
            elif r is not None: self.bad.append((g, g, r))
            else: self.n += 1


def bounded(E, s, i, N, counts=()):
    """0 <= i < N on this path (N a number or None for the terms in counts): None, a value out of range, or 'unknown'"""
    import random
    at = [a for a in dict.fromkeys(pit.atoms_of(i)) if a not in counts and a[0] != 'this' and not (a[0] == 'init' and a[1][0] == 'this')]
    if len(at) != 1: return 'unknown'
    lo = -2
    if at[0][0] == 'phi':
        if not from_zero_up(E, i): return 'unknown'
        lo = 0
    rel = [(t, b) for t, b in facts_of(s) if at[0] in pit.atoms_of(t) and set(a for a in pit.atoms_of(t) if not (a[0] == 'init' and a[1][0] == 'this')) <= set(at) | set(counts)]
    for n in ([N] if not counts else range(1, COUNTS)):
        for x in range(lo, n + 6):
            v = pit.Val(random.Random(1))
            v.set(at[0], x)
            for c in counts: v.set(c, n)
            try:
                if all(bool(v.ev(t)) == b for t, b in rel) and not (0 <= v.ev(i) < n): return v.ev(i)
            except pit.Undef: return 'unknown'
    return None


def loggers(cx):
    """logger numbers and log levels used as subscripts"""
    p = cx.p
    # how many loggers every logging object has at least
    least = None
    for f in p.funcs.values():
        for x in walk([f.get('b') or []]):
            if x.get('k') == 'ctor' and x.get('ty') in ('logger', 'py_logger') and x.get('a') and bare(x['a'][0]).get('k') in ('ref', 'ctor'):
                a = bare(x['a'][0])
                while a.get('k') == 'ctor' and a.get('a'): a = bare(a['a'][0])
                if a.get('k') != 'ref' or a.get('dk') == 'param': continue
                n = sum(1 for c in calls(f['b']) if c.get('nm') in ('push_back', 'emplace_back') and bare(c.get('this') or {}).get('id') == a.get('id'))
                if n: least = n if least is None else min(least, n)
    if least is None: cx.undecided.append(('log-index', 'logger', 'construction of loggers not recognised', '')); return
    fixed = {g['q']: g['n_el'] for g in p.globals.values() if g.get('n_el')}
    m = 0
    for f in p.funcs.values():
        if f.get('cls') != 'logger' or not f.get('b'): continue
        sites = [x for x in walk(f['b']) if x.get('k') == 'idx']
        for x in sites:
            m += 1
            nm = mem_name(x)
            base = bare(x['b'])
            N = least if nm in ('logger_names_', 'logger_levels_') else fixed.get(base.get('q'))
            if N is None: cx.undecided.append(('log-index', cx.at(f, x), str(nm), '')); continue
            i = bare(x['i'])
            if i.get('k') == 'ref' and i.get('dk') != 'param':      # a loop variable: decided under the loop's condition
                loop_index(cx, f, x, N, nm)
                continue
            if i.get('k') == 'idx':                                  # a stored level
                stored(cx, f, x, mem_name(i), N)
                continue
            O = Origin(cx, N)
            O.expr(i, f)
            report(cx, f, x, O, nm, N)
    cx.need(m, 3, 'subscripts in the logger')


def report(cx, f, x, O, nm, N):
    for g, n, c in O.bad[:4]:
        cx.ob(False, 'log-index', g, "a number used to subscript %s (%d elements) in %s is in range" % (nm, N, f['q']), node=n if n is not g else None, detail="value %s" % (c,))
    for g, n in O.unknown[:6]: cx.undecided.append(('log-index', cx.at(g, n if n is not g else None), nm, str(n.get('k'))))
    cx.counts['sources of log indices'] = cx.counts.get('sources of log indices', 0) + O.n
    cx.ob(not O.bad, 'log-index', f, "every number used to subscript %s is in range" % nm, node=x)


def stored(cx, f, x, field, N):
    """a subscript read from array `field`: everything stored there is in range"""
    O = Origin(cx, N)
    for g in cx.p.funcs.values():
        if g.get('ctor'): continue            # the constructor's levels are replaced before it returns (set_log_level_by_value)
        for w in walk(g.get('b') or []):
            if w.get('k') == 'asg' and w['a'].get('k') == 'idx' and mem_name(w['a']) == field: O.expr(w['b'], g)
    report(cx, f, x, O, field, N)


def loop_index(cx, f, x, N, nm):
    recs = []

    def see(E, s, lv, v, e, fr):
        for j, c in enumerate(lv.path):
            if isinstance(c, tuple) and c[0] == '[]' and e is x: recs.append((s.copy(), c[1]))
    try: E, outs = paths(cx, f, on_load=see, on_store=see)
    except AnalysisError as e: cx.undecided.append(('log-index', cx.at(f, x), str(e)[:80], '')); return
    cnt = [fld(('init', ('this', 'logger')), 'num_loggers_')]
    for s, i in recs:
        if is_c(i): cx.ob(0 <= i[1] < N, 'log-index', f, "%s is subscripted in range" % nm, node=x); continue
        own = nm in ('logger_names_', 'logger_levels_')
        r = bounded(E, s, i, N, cnt if own else ())
        if r == 'unknown': cx.undecided.append(('log-index', cx.at(f, x), nm, show(i)[:80])); continue
        cx.ob(r is None, 'log-index', f, "%s is subscripted in range" % nm, node=x, detail="subscript %s" % r)
