"""P12, P13, P19: command lines and settings."""
import re
from ._lib import *
from .files import main_of, inlines, fileop, nonzero
from .stats import outer_cases
from sa.loops import resolve
from sa import effects

ARG = re.compile(r'^TCLAP::(UnlabeledValueArg|ValueArg|SwitchArg|MultiArg|UnlabeledMultiArg)\b')
AWP = 'arc_welder::process'


def OPT(n): return ('init', ('opt', n))
def SET(n): return ('init', ('given', n))


def writing(c):
    if c.get('k') == 'ctor': return bool(re.search(r'basic_ofstream|basic_fstream', str(c.get('cls')))) and bool(c.get('a'))
    if not fileop(c): return False
    m = c['a'][1] if (c.get('f') or '').endswith('fopen') and len(c.get('a', ())) > 1 else None
    return not (m and m.get('k') == 'str' and m['v'] in ('r', 'rb'))


class Option:
    def __init__(self, q, args, node):
        self.q, self.node = q, node
        self.kind = ARG.match(q).group(1)
        self.type = (re.search(r'<(.*)>', q) or [None, 'bool'])[1]
        s = [a[1] if is_c(a) and isinstance(a[1], str) else None for a in args]
        self.args = args
        if self.kind.startswith('Unlabeled'): self.flag, self.name = '', args[0]
        else: self.flag, self.name = s[0], args[1]
        self.default = args[4] if self.kind == 'ValueArg' else args[3]
        # the name of a firmware parameter is made from its identifier
        if self.name[0] == 'call' and self.name[1].endswith('get_argument_string'):
            self.param = self.name[2][0][1] if is_c(self.name[2][0]) else None
        else: self.param = None
        self.id = self.param or (self.name[1] if is_c(self.name) else None)


class Program:
    """a main function: options declared, taken, refused, and the start of the processing"""

    def __init__(self, cx, part, callee, extra_inline=lambda f: False, on=None, disj=0):
        p = cx.p
        self.cx, self.fn, self.callee, self.on = cx, main_of(cx, part), callee, on
        self.options, self.starts, self.refusals, self.notes = {}, [], [], {}
        lead = inlines(callee, p)
        self.memo = {}
        self.E = Engine(p, disj=disj, opaque={callee}, skip=logskip(p), on_call=self.call, inline_if=lambda f: lead(f) or extra_inline(f) or refuses(p, f), pure={'firmware_arguments::get_argument_string', 'utilities::does_file_exist', 'firmware_arguments::is_argument_used', 'firmware_arguments::get_available_arguments_string'})
        self.outs = self.E.run(self.fn, State(mon=None))
        cx.funcs.add(self.fn['q'])

    def note(self, ok, code, msg, node=None, det=None):
        k = (code, node.get('l') if node else 0, msg)
        c = self.notes.get(k)
        if c is None or c[0] and not ok: self.notes[k] = (bool(ok), node, det)

    def emit(self):
        for (code, l, msg), (ok, node, det) in self.notes.items(): self.cx.ob(ok, code, self.fn, msg, node, det)

    def option(self, s, lv):
        if not isinstance(lv, LV): return None
        o = s.env.get(('opt', lv.root, lv.path))
        return self.options.get(o[1]) if o else None

    def changes_files(self, fid):
        """a function that may create, change or remove a file"""
        if fid not in self.memo:
            self.memo[fid] = any(writing(c) for i in effects.reach(self.cx.p, [fid]) for c in calls(self.cx.p.funcs[i]))
        return self.memo[fid]

    def call(self, E, s, ci):
        q, nm, n = ci.q or '', ci.name, ci.node
        m = ARG.match(q)
        if m and ci.kind == 'ctor' and len(ci.args) >= 4:
            o = Option(q, ci.args, n)
            if o.id is None:
                self.cx.undecided.append(('option', show(o.name)[:200])); return None
            if o.id in self.options and self.options[o.id].node is not n and self.options[o.id].node.get('l') != n.get('l'):
                self.note(False, 'option-once', 'every option has its own name', n, o.id)
            self.options[o.id] = o
            s.env[('opt', ci.this.root, ci.this.path)] = C(o.id)
            return None
        if (m or q == 'TCLAP::Arg::isSet') and nm in ('getValue', 'isSet'):
            o = self.option(s, ci.this)
            if o is None: return None
            return [(s, OPT(o.id) if nm == 'getValue' else SET(o.id))]
        if q == 'TCLAP::ArgException' and ci.kind == 'ctor' and len(ci.args) >= 2:
            self.refusals.append((s.copy(), n))
            return None
        if q.endswith('Output::failure'):
            x = ('exc', 'TCLAP::ExitException', ('init', ('ghost', 'exit')))
            return [(s, ('thrown', x))]
        if nm == 'getExitStatus': return [(s, C(1))]
        if nm == 'exit' and q in ('exit', 'std::exit', '_exit'):
            return [(s, ('noreturn', ci.args[0]))]
        if q == self.callee:
            self.starts.append((s.copy(), ci, n))
            out = []
            for b in (1, 0):
                t = s.copy(); t.mon = ('ran', b)
                out.append((t, self.result(b)))
            return out
        if self.on:
            r = self.on(self, E, s, ci)
            if r is not None: return r
        if s.mon is None and ci.fid in self.cx.p.funcs and ci.fid not in self.E.stats['functions'] and not inl(E, self.cx.p.funcs[ci.fid]):
            self.note(not self.changes_files(ci.fid), 'nothing-touched', 'no file is created, changed or removed before the values were checked', n, q)
        elif s.mon is None and n.get('k') in ('call', 'ctor') and writing(n):
            self.note(False, 'nothing-touched', 'no file is created, changed or removed before the values were checked', n, q)
        return None

    def result(self, b): return setp(('init', ('results', b)), ('success',), C(b)) if self.callee == AWP else C(b)


def refuses(p, f, memo={}):
    """a helper that raises the command line's own exception"""
    if 'TCLAP' in f['file'] or not f.get('b'): return False
    k = (id(p), f['q'], f['file'])
    if k not in memo: memo[k] = any(isinstance(x, dict) and x.get('k') == 'throw' and 'ArgException' in str((x.get('e') or {}).get('ty')) for x in walk(f['b']))
    return memo[k]


def inl(E, f): return E.inline_if(f) if getattr(E, 'inline_if', None) else False


# ------------------------------------------------------------------ exceptions
def handlers(n): return [h['ty'].replace('const ', '').rstrip('& ').strip() for h in n['h']]


THROWING = re.compile(r'^std::(stoi|stol|stoul|stoll|stoull|stof|stod|stold)$|::(at)$')


def catches(p, hs, ety):
    if '...' in hs: return True
    if ety is None: return False
    e = ety.replace('const ', '')
    b = [e]; st = [e]
    while st:
        for x in p.records.get(st.pop(), {}).get('bases', []): b.append(x); st.append(x)
    if e == 'std::exception': b += []
    return any(h in b or (h == 'std::exception' and e.startswith('std::')) for h in hs)


def escapes(cx, f, memo, stack=()):
    """{exception type: where} that may leave function f (of the repository, TCLAP's parser apart)"""
    p = cx.p
    i = p.fid(f) if hasattr(p, 'fid') else f['fid'] if 'fid' in f else id(f)
    if i in memo: return memo[i]
    if i in stack: return {}
    out = {}
    made = constructed(p)

    def go(n, tries):
        if isinstance(n, list):
            for x in n: go(x, tries)
            return
        if not isinstance(n, dict): return
        k = n.get('k')
        if k == 'try':
            hs = handlers(n)
            go(n['b'], tries + (hs,))
            for h in n['h']: go(h['b'], tries)
            return
        if k == 'lambda': pass
        def raises(t, where):
            k = t if isinstance(t, tuple) else (t, where[0]['q'], where[1].get('l'))
            if not any(catches(p, hs, k[0]) for hs in tries): out.setdefault(k, where)
        if k == 'throw': raises((n.get('e') or {}).get('ty') if n.get('e') else None, (f, n))
        if k in ('call', 'ctor'):
            q = n.get('f') or ''
            if THROWING.search(q): raises('std::exception', (f, n))
            if q == 'TCLAP::CmdLine::parse' or q == 'TCLAP::CmdLine::add': pass
            for g in targets(p, n, made):
                for t, w in escapes(cx, g, memo, stack + (i,)).items(): raises(t, w)
            if q.endswith('CmdLineOutput::failure'): raises('TCLAP::ExitException', (f, n))
        for x in n.values():
            if isinstance(x, (dict, list)): go(x, tries)
    go(f.get('b'), ())
    for x in f.get('ini', f.get('inits', [])) or []: go(x, ())
    memo[i] = out
    return out


def constructed(p):
    c = getattr(p, '_made', None)
    if c is None:
        c = p._made = set()
        for f in p.funcs.values():
            for x in walk(f.get('b')):
                if not isinstance(x, dict): continue
                if x.get('k') == 'ctor': c.add(x.get('cls'))
                if x.get('k') == 'new': c.add((x.get('aty') or x.get('ty') or '').rstrip('* '))
    return c


def targets(p, n, made):
    i = n.get('fid')
    if n.get('virt'):
        nm, base = n.get('nm'), n.get('cls')
        out = []
        for f in p.funcs.values():
            if f['q'].split('::')[-1] != nm or not f.get('cls'): continue
            cs = {c for c in made if c in p.records and (c == f['cls'] or f['cls'] in allbases(p, c))}
            c0 = f['cls']
            if c0 != base and base not in allbases(p, c0) and c0 not in allbases(p, base): continue
            # used by a class that is constructed and does not replace it
            if any(final(p, c, nm) == c0 for c in made if c in p.records): out.append(f)
        return out
    f = p.funcs.get(i)
    return [f] if f is not None and 'TCLAP' not in f['file'] else []


def allbases(p, c):
    out = []
    for b in p.records.get(c, {}).get('bases', []): out.append(b); out += allbases(p, b)
    return out


def final(p, c, nm):
    for k in [c] + allbases(p, c):
        if any(f.get('cls') == k and f['q'].split('::')[-1] == nm for f in p.funcs.values()): return k
    return None


# throws that guard an invariant of the program itself: an access outside a container, containers of different sizes, a tool count of zero
GUARDS = ('array_list<', 'circular_buffer<', 'position::', 'source_target_segment_statistics::')


def guard(f, t): return t == 'std::exception' and f['q'].startswith(GUARDS)


def no_escape(cx, part):
    fn = main_of(cx, part)
    memo = {}
    esc = {t: w for t, w in escapes(cx, fn, memo).items() if not guard(w[0], t[0])}
    for f in memo: cx.funcs.add(str(f).split('(')[0])
    cx.ob(not esc, 'no-escape', fn, 'no exception leaves the program', detail='; '.join('%s thrown in %s (line %s)' % (t[0], w[0]['q'], w[1].get('l')) for t, w in esc.items()))
    cx.need(len(memo), 20, 'functions examined for exceptions')


# ------------------------------------------------------------------ P12
def ge(a, b): return NOT(lt(a, b))
RANGES = {
    'resolution-mm': ('greater than 0', lambda v: lt(C(0), v)),
    'path-tolerance-percent': ('greater than 0 and less than 1', lambda v: AND(lt(C(0), v), lt(v, C(1)))),
    'max-radius-mm': ('greater than 0', lambda v: lt(C(0), v)),
    'min-arc-segments': ('not negative', lambda v: ge(v, C(0))),
    'mm-per-arc-segment': ('not negative', lambda v: ge(v, C(0))),
    'default-xyz-precision': ('from 3 to 6', lambda v: AND(ge(v, C(3)), ge(C(6), v))),
    'default-e-precision': ('from 3 to 6', lambda v: AND(ge(v, C(3)), ge(C(6), v))),
    'extrusion-rate-variance-percent': ('not negative', lambda v: ge(v, C(0))),
    'max-gcode-length': ('0 or greater than 30', lambda v: OR(eq(v, C(0)), lt(C(30), v))),
}


def range_of(n): return RANGES[n][1](OPT(n))


def source_named(pr, x):
    ids = {pr.options[n].id for n in pr.options if pr.options[n].kind == 'UnlabeledValueArg' and 'source' in n}
    return any(y == OPT(i) for y in subterms(x) for i in ids)


def int_facts(pr, facts):
    """facts on whole numbers in both their strict and non-strict forms"""
    F = norm.Facts(facts)
    for t, b in list(facts.items()):
        for x in subterms(t):
            if x[0] != 'op' or x[1] != '<' or len(x) < 3: continue
            a, c = (x[2][0], x[2][1]) if isinstance(x[2], tuple) and len(x[2]) == 2 and isinstance(x[2][0], tuple) else (x[2], x[3])
            for n, o in pr.options.items():
                if o.type not in ('int', 'long', 'unsigned int', 'short'): continue
                v = OPT(n)
                if a == v and is_c(c) and c[1] == int(c[1]):
                    F.add(norm.B(OR(NOT(lt(v, c)), NOT(lt(C(int(c[1]) - 1), v))))); F.add(norm.B(OR(lt(v, c), lt(C(int(c[1]) - 1), v))))
                if c == v and is_c(a) and a[1] == int(a[1]):
                    F.add(norm.B(OR(NOT(lt(a, v)), NOT(lt(v, C(int(a[1]) + 1)))))); F.add(norm.B(OR(lt(a, v), lt(v, C(int(a[1]) + 1)))))
    return F


def pairing():
    a, b = eq(OPT('mm-per-arc-segment'), C(0)), eq(OPT('min-arc-segments'), C(0))
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


VALID = {'resolution-mm': .05, 'path-tolerance-percent': .05, 'max-radius-mm': 1000., 'min-arc-segments': 0, 'mm-per-arc-segment': 0., 'default-xyz-precision': 4,
         'default-e-precision': 5, 'extrusion-rate-variance-percent': .05, 'max-gcode-length': 0}


def valid_values(pr, fs):
    """values inside every range that satisfy the facts: the usual ones, with those the facts speak about moved around their constants"""
    import random, itertools
    cand = {}
    for t, b in fs:
        for x in subterms(t):
            if not (x[0] == 'op' and x[1] in ('<', '==')): continue
            ys = list(subterms(x))
            for n in VALID:
                if OPT(n) in ys:
                    cs = [c[1] for c in ys if is_c(c) and isinstance(c[1], (int, float))]
                    whole = n in pr.options and pr.options[n].type in ('int', 'long')
                    cand.setdefault(n, {VALID[n]}).update(v for c in cs for v in ((c, c - 1, c + 1) if whole else (c, c / 2, c * 1.5, c - 1, c + 1)))
    own = []
    for t, b in reversed(fs[:-len(RANGES) - 1]):
        own += [n for n in cand if n not in own and OPT(n) in list(subterms(t))]
    own = own[:3]
    for k, vs in enumerate(itertools.product(*[sorted(cand[n]) for n in own])):
        if k > 4000: break
        v = pit.Val(random.Random(k))
        for n in VALID: v.set(OPT(n), VALID[n])
        for n, x in zip(own, vs): v.set(OPT(n), x)
        try:
            if all(v.truth(t) == b for t, b in fs): return v
        except pit.Undef: pass
    return None


@rule('P12', DOM + "The program's main function is run abstractly with one symbolic value per declared option: at every call of the processing the path facts must entail each option's documented range (on the option's own value, before any narrowing); at every refusal some range must be contradicted; before the processing nothing that reaches a file operation is called, and a refusal returns non-zero. Escaping exceptions by a call-graph analysis of throw expressions, handlers and constructed classes for both programs.")
def p12(cx):
    pr = Program(cx, 'ArcWelderConsole', AWP)
    fn = pr.fn
    cx.need(len(pr.options), 12, 'options of the welder')
    cx.need(len(pr.starts), 1, 'starts of the processing')
    for n in RANGES:
        cx.ob(n in pr.options, 'option', fn, 'the documented option %s exists' % n)
    for s, ci, node in pr.starts:
        F = int_facts(pr, s.facts)
        for n, (txt, mk) in RANGES.items():
            if n not in pr.options: continue
            cx.ob(entails(F, mk(OPT(n))), 'range-' + n, fn, 'processing starts only if %s is %s' % (n, txt), node)
        cx.ob(entails(F, pairing()), 'segments-together', fn, 'processing starts only if mm-per-arc-segment and min-arc-segments are given together', node)
        ex = [t for t in s.facts for x in subterms(t) if x[0] == 'call' and x[1] == 'utilities::does_file_exist']
        cx.ob(any(entails(F, truth(x, 'bool')) and source_named(pr, x) for t in ex for x in subterms(t) if x[0] == 'call' and x[1] == 'utilities::does_file_exist'), 'source-exists', fn, 'processing starts only if the source exists', node)
    import random
    n = 0
    for s, node in pr.refusals:
        n += 1
        F = int_facts(pr, s.facts)
        for k in RANGES: F.add(norm.B(range_of(k)))
        F.add(norm.B(pairing()))
        if F.contradictory() if hasattr(F, 'contradictory') else entails(F, C(0)): 
            cx.ob(True, 'refused-invalid', fn, 'only values outside the documented range are refused', node); continue
        other = [t for t in s.facts if t[0] != 'val' and any(x[0] in ('call', 'phi', 'join', 'mut', 'out') for x in subterms(t))]
        def odd(t): return t[0] == 'op' or t[0] == 'call'
        why = [t for t in other if any((x[0] == 'call' and x[1] == 'utilities::does_file_exist' and entails(norm.Facts(s.facts), NOT(truth(x, 'bool')))) or x[0] in ('phi', 'join') for x in subterms(t))]
        if why: cx.ob(True, 'refused-other', fn, 'a missing source or an unknown log level is refused', node); continue
        fs = [(t, b) for t, b in s.facts.items() if t[0] != 'val' and t not in other] + [(range_of(k), True) for k in RANGES] + [(pairing(), True)]
        hit = valid_values(pr, fs)
        if hit is not None: cx.ob(False, 'refused-invalid', fn, 'only values outside the documented range are refused', node, detail='; '.join(('' if b else 'not ') + show(t) for t, b in s.facts.items() if t[0] != 'val')[-300:])
        else: cx.undecided.append(('refused', '; '.join(show(t) for t in s.facts if t[0] != 'val')[-300:]))
    cx.need(n, 5, 'refusals')
    for k, s, v in pr.outs:
        if contradictory(s): continue
        cx.ob(k != 'T', 'no-escape', fn, 'no exception leaves the program', detail=show(v)[:200] if k == 'T' else None)
        if k == 'R' and s.mon is None: cx.ob(nonzero(s, retval(s, v)), 'refused-status', fn, 'a refusal ends the program with a non-zero status', detail=show(retval(s, v)))
    pr.emit()
    seen = {}
    for n, o in pr.options.items():
        if o.flag: cx.ob(o.flag not in seen, 'flag-once', fn, 'every option has its own letter', o.node, detail='-%s: %s, %s' % (o.flag, n, seen.get(o.flag)))
        seen[o.flag] = n
    no_escape(cx, 'ArcWelderConsole')
    no_escape(cx, 'Inverse')


# ------------------------------------------------------------------ P13
FIELDS = {'resolution-mm': 'resolution_mm', 'path-tolerance-percent': 'path_tolerance_percent', 'max-radius-mm': 'max_radius_mm', 'min-arc-segments': 'min_arc_segments',
          'mm-per-arc-segment': 'mm_per_arc_segment', 'allow-3d-arcs': 'allow_3d_arcs', 'allow-travel-arcs': 'allow_travel_arcs', 'allow-dynamic-precision': 'allow_dynamic_precision',
          'g90-influences-extruder': 'g90_g91_influences_extruder', 'default-xyz-precision': 'default_xyz_precision', 'default-e-precision': 'default_e_precision',
          'extrusion-rate-variance-percent': 'extrusion_rate_variance_percent', 'max-gcode-length': 'max_gcode_length'}
AWCTOR = 'arc_welder'


def p13_cli(cx):
    made = []

    def on(pr, E, s, ci):
        if ci.q == AWCTOR and ci.kind == 'ctor' and ci.args:
            made.append((s.copy(), ci.args[0], ci.node, ci.lvs[0] if ci.lvs else None))
        return None
    pr = Program(cx, 'ArcWelderConsole', AWP, on=on)
    return pr, made


def leafs(E, s, v, seen=()):
    """(facts, Facts, value) of the feasible cases of a value chosen by branches"""
    def put(x, j, y):
        if x == j: return y
        if isinstance(x, tuple): return tuple(put(z, j, y) for z in x)
        return x
    D0 = {t: b for t, b in s.facts.items() if t[0] != 'val'}
    work = [(D0, v)]
    done = 0
    while work and done < 200:
        D, v = work.pop()
        j = next((t for t in subterms(v) if t[0] == 'join' and t in E.join_parts), None)
        if j is not None:
            for facts, y in E.join_parts[j]:
                D2 = dict(D)
                D2.update({t: b for t, b in (facts.items() if isinstance(facts, dict) else facts) if t[0] != 'val'})
                w = put(v, j, y)
                if j in set(subterms(w)): continue
                if norm.contradiction(norm.Facts(D2)): continue
                work.append((D2, w))
            continue
        for cs, y in outer_cases(resolve(s, v)):
            D2 = dict(D); D2.update(cs)
            F = norm.Facts(D2)
            if not norm.contradiction(F):
                done += 1
                yield D2, F, y


def strip_cast(F, v):
    """a narrowing of a value that is known to fit is the value"""
    while v[0] == 'cast' and v[1] in ('unsigned char', 'char', 'int', 'unsigned int', 'long') and entails(F, AND(NOT(lt(v[2], C(0))), lt(v[2], C(128)))): v = v[2]
    return v


THIS = ('this', 'arc_welder')
# what the welder keeps of each setting: (member, expected value for setting value x)
MEMBERS = [
    ('resolution_mm', ('current_arc_', 'resolution_mm_'), 'half of the resolution', lambda x: div(x, C(2.0)), None),
    ('path_tolerance_percent', ('current_arc_', 'path_tolerance_percent_'), 'the path tolerance', lambda x: x, None),
    ('max_radius_mm', ('current_arc_', 'max_radius_mm_'), 'the maximum radius (at most 9999)', lambda x: x, lambda x: NOT(lt(C(9999.0), x))),
    ('min_arc_segments', ('current_arc_', 'min_arc_segments_'), 'the minimum segment count', lambda x: x, lambda x: NOT(lt(x, C(0)))),
    ('mm_per_arc_segment', ('current_arc_', 'mm_per_arc_segment_'), 'the segment length', lambda x: x, lambda x: lt(C(0.001), x)),
    ('allow_3d_arcs', ('current_arc_', 'allow_3d_arcs_'), 'the choice of 3d arcs', lambda x: x, None),
    ('allow_3d_arcs', ('allow_3d_arcs_',), 'the choice of 3d arcs', lambda x: x, None),
    ('allow_travel_arcs', ('allow_travel_arcs_',), 'the choice of travel arcs', lambda x: x, None),
    ('allow_dynamic_precision', ('allow_dynamic_precision_',), 'the choice of dynamic precision', lambda x: x, None),
    ('default_xyz_precision', ('current_arc_', 'xyz_precision_'), 'the xyz precision', lambda x: x, lambda x: AND(NOT(lt(x, C(3))), NOT(lt(C(6), x)))),
    ('default_e_precision', ('current_arc_', 'e_precision_'), 'the e precision', lambda x: x, lambda x: AND(NOT(lt(x, C(3))), NOT(lt(C(6), x)))),
    ('extrusion_rate_variance_percent', ('extrusion_rate_variance_percent_',), 'the extrusion rate variance', lambda x: x, None),
    ('max_gcode_length', ('current_arc_', 'max_gcode_length_'), 'the maximum g-code length', lambda x: x, lambda x: lt(C(30), x)),
    ('g90_g91_influences_extruder', ('gcode_position_args_', 'g90_influences_extruder'), 'the influence of G90/G91 on the extruder', lambda x: x, None),
    ('source_path', ('source_path_',), 'the source path', lambda x: x, None),
    ('target_path', ('target_path_',), 'the target path', lambda x: x, None),
    ('callback', ('progress_callback_',), 'the progress callback', lambda x: x, None),
]


def members(cx):
    p = cx.p
    fns = [f for i, f in p.funcs.items() if f.get('ctor') and f.get('cls') == 'arc_welder' and f['p'] and 'arc_welder_args' in f['p'][0]['ty']]
    if not fns: raise AnalysisError('the constructor of arc_welder was not found')
    fn = fns[0]
    own = ('segmented_arc', 'segmented_shape', 'arc_welder', 'gcode_position_args')
    E, outs = paths(cx, fn, merge=True, skip=logskip(p), inline_if=lambda f: f['q'].split('::')[0] in own or not f.get('cls'))
    A = LV(('param', '#0'), ()) if fn['p'][0]['ty'].endswith('&') else None
    for field, path, what, mk, cond in MEMBERS:
        x = fld(('init', ('param', '#0')), field)
        for k, s, v in outs:
            if k != 'R': continue
            got = s.load(THIS, path)
            for D, F, y in leafs(E, s, got):
                if cond is not None: F.add(norm.B(cond(x))); D[cond(x)] = True
                if norm.contradiction(F): continue
                cx.same(strip_cast(F, y), mk(x), 'handed-on-' + field, fn, 'the welder keeps %s it was given' % what, facts=D)
    # the tracker gets the welder's configuration
    n = 0
    for f in p.funcs.values():
        if not f['q'].startswith('arc_welder::') and not f.get('ctor'): continue
        if f.get('cls') != 'arc_welder': continue
        for x in walk(f['b']):
            if isinstance(x, dict) and x.get('k') == 'new' and x.get('aty') == 'gcode_position':
                n += 1
                a = (x.get('i') or {}).get('a', [])
                while a and a[0].get('k') in ('ctor', 'cast') and a[0].get('a', a[0].get('e')): a = a[0].get('a') or [a[0]['e']]
                cx.ob(bool(a) and a[0].get('k') in ('mem', 'member', 'fld') and a[0].get('f') == 'gcode_position_args_', 'tracker-settings', f, 'the position tracker is configured with the settings of the welder', x, str(a)[:100])
    cx.need(n, 1, 'trackers made by the welder')
    gs = [f for i, f in p.funcs.items() if f.get('ctor') and f.get('cls') == 'gcode_position' and f['p'] and 'gcode_position_args' in f['p'][0]['ty']]
    for g in gs[:1]:
        E, outs = paths(cx, g, merge=True, skip=logskip(p) | {'gcode_position::get_gcode_functions'}, inline_if=lambda f: f.get('cls') == 'gcode_position')
        for k, s, v in outs:
            if k != 'R': continue
            got = s.load(('this', 'gcode_position'), ('g90_influences_extruder_',))
            for D, F, y in leafs(E, s, got):
                cx.same(y, fld(('init', ('param', '#0')), 'g90_influences_extruder'), 'handed-on-g90', g, 'the tracker keeps the influence of G90/G91 on the extruder it was given')


def uncast(x):
    """whole numbers from python are taken to fit an int"""
    if isinstance(x, tuple):
        if x and x[0] == 'cast' and x[1] == 'int' and x[2][0] == 'call' and 'Long' in x[2][1]: return uncast(x[2])
        return tuple(uncast(z) for z in x)
    return x


def python_keys(cx):
    p = cx.p
    fn = p.find('py_gcode_arc_args::parse_args')

    def oc(E, s, ci):
        if ci.name in ('PyDict_GetItemString', 'PyDict_GetItem', 'PyMapping_GetItemString'):
            k = ci.args[1]
            return [(s, ('init', ('key', k[1] if is_c(k) else show(k))))]
        return None
    opq = {f['q'] for f in p.funcs.values() if f['q'].startswith(('py_logger', 'gcode_arc_converter::Py'))}
    E = Engine(p, on_call=oc, skip=logskip(p) - {'logger::get_log_level_for_value'}, opaque=opq | {'logger::get_log_level_for_value'}, pure={'logger::get_log_level_for_value'})
    a = {prm['n']: arg(i) if not prm['ty'].endswith('&') else LV(('param', '#%d' % i), ()) for i, prm in enumerate(fn['p'])}
    outs = E.run(fn, args=a)
    cx.funcs.add(fn['q'])
    n = 0
    names = {v: k for k, v in FIELDS.items()}
    keys = list(FIELDS.values()) + ['guid', 'source_path', 'target_path', 'log_level']
    root = ('param', '#2')

    def key_of(x): return x[1][1] if x[0] == 'init' and x[1][0] == 'key' else None
    for k, s, v in outs:
        if k != 'R' or contradictory(s): continue
        rv = retval(s, v)
        if is_c(rv) and not rv[1]: continue
        for f in keys:
            init = fld(('init', root), f)
            present = truth(('init', ('key', f)), '_object *')
            for D, F, y in leafs(E, s, s.load(root, (f,))):
                n += 1
                used = {key_of(x) for x in subterms(y)} - {None}
                if not cx.ob(used <= {f}, 'key-' + f, fn, "the setting %s comes from the value of the key of its own name" % f, detail=str(sorted(used - {f}))): continue
                if entails(F, NOT(present)):
                    cx.ob(y == init, 'key-absent', fn, 'a setting whose key is missing keeps its default', detail='%s: %s' % (f, show(y)[:100])); continue
                if f in ('guid', 'source_path', 'target_path', 'log_level'):
                    cx.ob(f in used, 'key-' + f, fn, 'the setting %s comes from the value of the key of its own name' % f, detail=show(y)[:150]); continue
                conv = [x for t in [y] + list(D) for x in subterms(t) if x[0] == 'call' and any(key_of(z) == f for z in x[2])]
                c = conv[0] if conv else ('call', 'value', (('init', ('key', f)),))
                want, rng = c, None
                if f.startswith(('allow_', 'g90')): want, rng = lt(C(0), c), OR(eq(c, C(0)), eq(c, C(1)))
                elif names[f] in RANGES:
                    rng = RANGES[names[f]][1](c)
                    if f == 'max_radius_mm': rng = AND(rng, NOT(lt(C(9999.0), c)))
                D = {uncast(t): b for t, b in D.items()}; y = uncast(y); F = norm.Facts(D)
                for t in (present, rng):
                    if t is not None: F.add(norm.B(t))
                if norm.contradiction(F): continue
                D[present] = True
                if rng is not None: D[rng] = True
                if y[0] == 'cast' and (f.startswith('default_') and y[1] == 'unsigned char' or y[1] == 'int' and 'Long' in str(y[2][1])): y = y[2]
                cx.same(y, want, 'key-' + f, fn, 'the setting %s takes the value of its key' % f, facts=D)
    cx.need(n, 10, 'settings read from python')


def defaults(cx, pr):
    p = cx.p
    fns = [f for i, f in p.funcs.items() if f.get('ctor') and f.get('cls') == 'arc_welder_args' and not f['p']]
    if not fns: raise AnalysisError('the default constructor of arc_welder_args was not found')
    fn = fns[0]
    E, outs = paths(cx, fn, merge=True, skip=logskip(p))
    for k, s, v in outs:
        if k != 'R': continue
        for o, f in FIELDS.items():
            if o not in pr.options: continue
            d = pr.options[o].default
            cx.same(s.load(('this', 'arc_welder_args'), (f,)), d, 'default-' + f, fn, 'the default of the option %s is the default of the setting' % o)
    # the python arguments start with the same defaults
    g = [f for i, f in p.funcs.items() if f.get('ctor') and f.get('cls') == 'py_gcode_arc_args' and not f['p']]
    for f in g:
        E, outs = paths(cx, f, merge=True, skip=logskip(p))
        for k, s, v in outs:
            if k != 'R': continue
            for o, fl in FIELDS.items():
                if o not in pr.options: continue
                got = s.load(('this', 'py_gcode_arc_args'), (fl,))
                cx.same(got, pr.options[o].default, 'default-' + fl, f, 'the default of the python key %s is the default of the option' % fl)


@rule('P13', DOM + "The command line's main function is run abstractly with a symbol per option: the settings object handed to the welder must hold exactly that symbol in the field of the option (a narrowing only where the path facts bound it). The welder's constructor, with those of the arc and of the tracker, is run on a symbolic settings object and each member compared with the setting it is made from. The Python parser is run with a symbol per dictionary key; each field must depend on its own key only, keep its default when the key is missing, and equal the key's value inside the documented range. Option defaults are compared with the values the settings' default constructors store.")
def p13(cx):
    pr, made = p13_cli(cx)
    fn = pr.fn
    cx.need(len(made), 1, 'welders made by the command line')
    for s, a, node, lv in made:
        F = int_facts(pr, s.facts)
        for o, f in FIELDS.items():
            if o not in pr.options: cx.ob(False, 'option', fn, 'the documented option %s exists' % o); continue
            cx.same(strip_cast(F, fld(a, f)), OPT(o), 'option-' + f, fn, 'the option %s sets %s' % (o, f), facts=None, node=node)
        src = [o.id for o in pr.options.values() if o.kind.startswith('Unlabeled') and 'source' in o.id]
        tgt = [o.id for o in pr.options.values() if o.kind.startswith('Unlabeled') and 'target' in o.id]
        if src: cx.same(fld(a, 'source_path'), OPT(src[0]), 'option-source', fn, 'the source is the first path given', node=node)
        if tgt and src:
            for D, G, y in leafs(pr.E, s, fld(a, 'target_path')):
                if y == OPT(tgt[0]): cx.ob(True, 'option-target', fn, 'the target is the second path given, or the source if none is given', node); continue
                about = [t for t in D if any(x == OPT(tgt[0]) for x in subterms(t))]
                cx.ob(y == OPT(src[0]) and bool(about), 'option-target', fn, 'the target is the second path given, or the source if none is given', node, show(y)[:150])
    members(cx)
    python_keys(cx)
    defaults(cx, pr)


# ------------------------------------------------------------------ P19
AIP = 'arc_interpolation::process'


def p19_cli(cx):
    made = []

    def on(pr, E, s, ci):
        if ci.q == 'arc_interpolation' and ci.kind == 'ctor' and ci.args:
            made.append((s.copy(), ci.args[0], ci.node))
        if ci.q == 'TCLAP::CmdLine::add' or ci.q == 'TCLAP::Arg::reset': return [(s, C(0))]
        return None
    pr = Program(cx, 'Inverse', AIP, on=on, disj=60)
    return pr, made


@rule('P19', DOM + "The straightener's main function is run abstractly with a symbol and an is-set flag per declared option: in the settings handed to the interpolator each firmware parameter's field must equal that parameter's value exactly where it is set and known to be used by the firmware, depend on no other option, and every set parameter of an unsupported kind must be refused. For each firmware version the parameters its routine reads are compared with the declared list and the defaults.")
def p19(cx):
    from .straight import classes, Apply, names_of, reads_of
    p = cx.p
    pr, made = p19_cli(cx)
    fn = pr.fn
    fields = {x['n'] for x in p.fields('firmware_arguments')}
    params = [n for n, o in pr.options.items() if o.param]
    cx.need(len(params), 8, 'firmware parameters on the command line')
    cx.need(len(made), 1, 'interpolators made')
    seen = {}
    for n, o in pr.options.items():
        if o.flag: cx.ob(o.flag not in seen, 'flag-once', fn, 'every option has its own letter', o.node, '-%s: %s, %s' % (o.flag, n, seen.get(o.flag)))
        seen[o.flag] = n
    tables = 0
    for s, a, node in made:
        for n in params:
            if not cx.ob(n in fields, 'parameter-known', fn, 'each firmware parameter has a setting', node, n): continue
            for D, F, y in leafs(pr.E, s, fld(a, 'firmware_args', n)):
                used = {x[1][1] for x in subterms(y) if x[0] == 'init' and isinstance(x[1], tuple) and x[1][0] == 'opt' and x[1][1] in params}
                cx.ob(used <= {n}, 'own-value', fn, 'the setting %s is made from the parameter of that name' % n, node, str(sorted(used)))
                given = entails(F, SET(n))
                absent = entails(F, NOT(SET(n)))
                if given:
                    asked = {x for t, b in D.items() for x in subterms(t) if x[0] == 'call' and x[1].endswith('is_argument_used') and x[2] and x[2][-1] == C(n)}
                    cx.ob(any(entails(F, x) for x in asked), 'supported', fn, 'the parameter %s is taken only if the firmware uses it' % n, node, '; '.join(show(t)[:80] for t in D))
                    if n.startswith('g90'): cx.same(y, mk_eq(OPT(n), C('TRUE')), 'value-' + n, fn, 'the parameter %s is stored as given' % n, facts=D, node=node)
                    else: cx.same(full(y, pr.options[n].type), OPT(n), 'value-' + n, fn, 'the parameter %s is stored as given' % n, facts=D, node=node)
                elif absent:
                    cx.ob(not used, 'default-' + n, fn, 'a parameter that is not given keeps the default of the firmware', node, show(y)[:150])
                else:
                    cx.ob(False, 'value-' + n, fn, 'the parameter %s is stored if it is given' % n, node, 'stored: %s' % show(y)[:150])
        for f in ('source_path', 'target_path'):
            o = [x.id for x in pr.options.values() if x.kind.startswith('Unlabeled') and f[:6] in x.id]
            if f == 'source_path' and o: cx.same(fld(a, f), OPT(o[0]), 'source', fn, 'the source is the first path given', node=node)
    # versions
    for c in classes(cx):
        a = Apply(cx, c)
        if a.names is None: cx.undecided.append(('versions', c)); continue
        dfn = p.find(c + '::get_default_arguments_for_current_version', optional=True)
        E, douts = paths(cx, dfn) if dfn else (None, [])
        ver = [x['n'] for x in p.fields(c) if x['n'].endswith('_version_')]
        common = [f['fid'] for f in p.funcs.values() if f.get('cls') == c and f['q'].split('::')[-1] == 'interpolate_arc']
        for i, name in enumerate(a.names):
            for f, u, v, t in a.by.get(i, []):
                lst = names_of(cx, a.fn, u)
                if lst is None or not f: continue
                tables += 1
                rd = reads_of(cx, [x[1] for x in f] + common) & set(params)
                for nm in lst:
                    if nm.startswith('g90'): continue
                    if nm in fields: cx.ob(nm in rd, 'used-parameter-read', p.funcs[f[0][1]], 'a parameter declared as used by a version is read by its routine', detail='%s %s: %s' % (c, name, nm))
                dv = default_of(cx, c, douts, i, v)
                for nm in sorted(rd - set(lst)):
                    d = dv.get(nm)
                    ok = d is None or d == 'same' or (is_c(d) and not d[1])
                    cx.ob(ok, 'read-parameter-declared', p.funcs[f[0][1]], 'a parameter a routine reads is declared as used by its version, or always off', detail='%s %s reads %s (default %s)' % (c, name, nm, d and d != 'same' and show(d)))
                for nm in lst:
                    d = dv.get(nm)
                    cx.ob(d is not None and d != 'same', 'declared-parameter-default', dfn or a.fn, 'a parameter declared as used by a version has a default', detail='%s %s: %s' % (c, name, nm)) if dv else None
    cx.need(tables, 5, 'firmware versions')
    tracker_g90(cx)


def full(y, ty):
    """y without conversions that keep every value of type ty"""
    while y[0] == 'cast' and y[1] in {'int': ('int', 'double'), 'float': ('float', 'double')}.get(ty, ('double',)): y = y[2]
    return y


def default_of(cx, c, douts, i, v):
    """the defaults of version number i: {parameter: value, or 'same' if left as constructed}"""
    out = {}
    for k, s, val in douts:
        if k != 'R': continue
        bad = False
        for t, b in s.facts.items():
            if t[0] != 'val' and t[0] == 'op' and t[1] == '==' and any(x[0] == 'fld' or x[0] == 'init' for x in subterms(t)):
                cs = [x[1] for x in t[2:] if is_c(x)]
                if cs and (cs[0] == i) != b: bad = True
        if bad: continue
        r = retval(s, val)
        for nm in [x['n'] for x in cx.p.fields('firmware_arguments')]:
            d = fld(r, nm)
            out[nm] = 'same' if any(x[0] == 'fld' and x[2] == nm for x in subterms(d)) else d
    return out


def tracker_g90(cx):
    p = cx.p
    fs = [f for f in p.funcs.values() if f.get('ctor') and f.get('cls') == 'arc_interpolation' and f['p'] and 'arc_interpolation_args' in f['p'][0]['ty']]
    n = 0
    for f in fs:
        got = []

        def oc(E, s, ci):
            if ci.q == 'gcode_position' and ci.kind == 'ctor' and ci.args: got.append((s.copy(), ci.args[0], ci.node))
            return None
        E, outs = paths(cx, f, merge=True, skip=logskip(p), on_call=oc, inline_if=lambda g: g.get('cls') in ('arc_interpolation', 'gcode_position_args'))
        A = ('init', ('param', '#0'))
        for s, a, node in got:
            n += 1
            for D, F, y in leafs(E, s, fld(a, 'g90_influences_extruder')):
                want = fld(A, 'firmware_args', 'g90_g91_influences_extruder')
                g = p.find(y[1], optional=True) if y[0] == 'call' and y[1].startswith('firmware::') and len(y[2]) == 1 else None
                if g:
                    for k2, s2, v2 in paths(cx, g)[1]:
                        if k2 == 'R': cx.same(retval(s2, v2), fld(('init', ('this', 'firmware')), 'args_', 'g90_g91_influences_extruder'), 'tracker-g90', g, 'the firmware answers with its own setting', node=node)
                    continue
                cx.same(y, want, 'tracker-g90', f, 'the tracker of the straightener takes the influence of G90/G91 on the extruder from the parameter', facts=D, node=node)
    cx.need(n, 1, 'trackers made by the straightener')
