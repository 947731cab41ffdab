"""P38: feature comments

Constant propagation of every comment of a finite alphabet (the comments of the three slicer styles, near misses of them, and one symbolic "any other" comment) through the two update
functions, for every comment style and section; the resulting style, section and feature are compared with the table of the slicers' comments.
"""
from ._lib import *
from .containers import ev, Unknown

CLS = 'gcode_comment_processor'
STYLE, SECTION, TAG = 'processing_type_', 'current_section_', 'feature_type_tag'
S3D = {'outer perimeter': 'outer_perimeter', 'inner perimeter': 'inner_perimeter', 'infill': 'infill', 'solid layer': 'solid_infill', 'skirt': 'skirt', 'ooze shield': 'ooze_shield',
       'prime pillar': 'prime_pillar', 'gap fill': 'gap_fill'}
LINES = {
    'cura': {'TYPE:WALL-OUTER': 'outer_perimeter', 'TYPE:WALL-INNER': 'inner_perimeter', 'TYPE:FILL': 'infill', 'TYPE:SKIN': 'solid_infill', 'TYPE:SKIRT': 'skirt'},
    'simplify_3d': dict(S3D, **{'feature ' + k: v for k, v in S3D.items()}),
    'slic3r_pe': {'CP TOOLCHANGE WIPE': 'prime_pillar', 'CP TOOLCHANGE END': None},
}
RESET = {'cura': ('LAYER:3', 'LAYER:', 'LAYER:0', 'LAYER:-1', 'LAYER:107', ';MESH:NONMESH', ';MESH:NONMESH2')}
ENDING = ('LAYER:', ';MESH:NONMESH')
ENDS = {'perimeter': 'unknown_perimeter', 'infill': 'infill', 'infill(bridge)': 'bridge', 'skirt': 'skirt'}
INLINE = dict(ENDS, **{'move to first %s point' % k: v for k, v in ENDS.items()})
ORDER = ('cura', 'simplify_3d', 'slic3r_pe')
NPOS = 2 ** 64 - 1


def text(t): return t[1] if is_c(t) and isinstance(t[1], str) else chr(t[1]) if is_c(t) and isinstance(t[1], int) and not isinstance(t[1], bool) else None


def folded(E, s, ci):
    """string methods on constants"""
    n = (ci.name or '').split('::')[-1]
    if ci.this is None or not (ci.q or '').startswith('std::'): return None
    v = ci.this if isinstance(ci.this, tuple) else None
    if isinstance(ci.this, LV): v = s.load(ci.this.root, ci.this.path)
    if v is None or not is_c(v) or not isinstance(v[1], str): return None
    w = v[1]
    if n in ('length', 'size'): return [(s, C(len(w)))]
    if n == 'empty': return [(s, C(not w))]
    a = ci.args
    k = lambda i, d: a[i][1] if len(a) > i and is_c(a[i]) and isinstance(a[i][1], int) else d if len(a) <= i else None
    if n in ('find', 'rfind', 'starts_with', 'compare') and a:
        if n == 'compare' and len(a) == 3:
            x, p0, ln = text(a[2]), k(0, None), k(1, None)
            if x is None or p0 is None or ln is None or p0 > len(w): return None
            y = w[p0:p0 + ln]
            return [(s, C((y > x) - (y < x)))]
        x = text(a[0]) if is_c(a[0]) else None
        if x is None: return None
        if n == 'starts_with': return [(s, C(w.startswith(x)))]
        if n == 'compare': return [(s, C((w > x) - (w < x)))] if len(a) == 1 else None
        if len(a) > 1 and k(1, None) is None: return None
        r = w.find(x, k(1, 0)) if n == 'find' else w.rfind(x, 0, min(len(w), (k(1, len(w)) or 0) + len(x)))
        return [(s, C(r) if r >= 0 else C(NPOS))]
    if n == 'substr' and k(0, 0) is not None and k(1, len(w)) is not None and k(0, 0) <= len(w): return [(s, C(w[k(0, 0):k(0, 0) + k(1, len(w))]))]
    return None


def env(t):
    if 'npos' in str(t): return NPOS
    return None


def feasible(s):
    for t, v in s.facts.items():
        if t[0] == 'val': continue
        try:
            if bool(ev(t, env)) != bool(v): return False
        except Unknown: pass
    return True


def names(p, enum, pre, suf):
    e = p.enums.get(enum) or next((v for k, v in p.enums.items() if k.endswith('::' + enum)), None)
    return e and {k.split('::')[-1][len(pre):len(k.split('::')[-1]) - len(suf) or None]: v for k, v in e.items()}


@rule('P38', DOM + "Domain: constants, over the finite alphabet of feature comments, near misses and one symbolic comment.")
def p38(cx):
    p = cx.p
    style, sect, feat = names(p, 'comment_process_type', 'comment_process_type_', ''), names(p, 'section_type', 'section_type_', '_section'), names(p, 'feature_type', 'feature_type_', '_feature')
    fs = [f for f in p.funcs.values() if f.get('cls') == CLS and f['n' if 'n' in f else 'q'].split('::')[-1] == 'update' and len(f['p']) == 1]
    line = [f for f in fs if 'string' in f['p'][0]['ty']]
    move = [f for f in fs if 'position' in f['p'][0]['ty']]
    if not (style and sect and feat and line and move): cx.undecided.append(('P38', 'comment processor not recognised', '')); return
    line, move = line[0], move[0]
    none = sect.get('no', sect.get('no_section', 0))
    th = ('this', CLS)
    sname = {v: k for k, v in sect.items()}
    sample = [none, sect['skirt'], sect['gap_fill']]

    def go(fn, st, sec, setup, arg_):
        s = State(mon=())
        s.store(th, (STYLE,), C(st)); s.store(th, (SECTION,), C(sec))
        setup(s)
        E = Engine(p, nomerge=True, on_call=folded)
        outs = E.run(fn, s, this=LV(th, ()), args={fn['p'][0]['n']: arg_})
        cx.funcs.add(fn['q'])
        return [(k, s) for k, s, v in outs if k == 'R' and feasible(s)]

    def judge(fn, what, outs, want, read):
        got = {read(s) for _, s in outs}
        if any(any(not is_c(x) for x in g) for g in got): cx.undecided.append(('P38', what, str([[show(x)[:60] for x in g] for g in got])[:200])); return
        got = {tuple(x[1] for x in g) for g in got}
        if not got: cx.undecided.append(('P38', what, 'no path')); return
        if len(got) > 1 and not got <= want: cx.undecided.append(('P38', what, 'several results ' + str(got))); return
        cx.ob(got <= want, 'comment', fn, what, detail="gives %s instead of %s" % (sorted(got), sorted(want)))

    # -- lines that hold only a comment
    PL = ('param', '#0')
    known = {t for d in LINES.values() for t in d} | set(INLINE)
    near = ['', 'TYPE:', 'type:fill', 'TYPE:SKIN2', 'TYPE:WALL-OUTER ', 'feature', 'feature infill2', 'features skirt', 'Infill', 'gap', 'infill 2', 'CP TOOLCHANGE', 'CP TOOLCHANGE UNLOAD', 'xLAYER:1', 'perimeter 1',
            'move to first', 'brim']
    # every text the processor mentions, too
    mentioned = {x for f in p.funcs.values() if f.get('cls') == CLS and f.get('b') for n in walk(f['b']) for x in [n.get("v") if n.get("k") == "str" else None] if x}
    near += sorted(mentioned - known - set(near) - {x for r in RESET.values() for x in r})
    for sn, st in style.items():
        for t in sorted(known | {x for r in RESET.values() for x in r}) + near:
            for sec in sample:
                hit = [x for x in ORDER if (x == sn or sn == 'unknown') and t in LINES[x]]
                want = {(st, sec)}
                if hit:
                    f = LINES[hit[0]][t]
                    want = {(style[hit[0]], none if f is None else sect[f])}
                    if f is None: want |= {(st, none)}
                elif (sn in RESET or sn == 'unknown') and t.startswith(ENDING):
                    want = {(st, none)} | ({(st, sec)} if sn == 'unknown' else set())
                outs = go(line, st, sec, lambda s: s.store(PL, (), C(t)), LV(PL, ()))
                judge(line, "comment line '%s' in style %s" % (t, sn), outs, want, lambda s: (s.load(th, (STYLE,)), s.load(th, (SECTION,))))
        outs = go(line, st, sect['skirt'], lambda s: None, LV(PL, ()))
        for _, s in outs:
            if not any(v and t[0] == 'op' and t[1] in ('==', 'or') and mentions(t, ('init', PL)) or not v and 'npos' in str(t) for t, v in s.facts.items()):
                cx.ob(s.load(th, (SECTION,)) == C(sect['skirt']) and s.load(th, (STYLE,)) == C(st), 'other', line, "a comment that is none of the style's leaves section and style unchanged",
                      detail="style %s: becomes section %s, style %s" % (sn, show(s.load(th, (SECTION,))), show(s.load(th, (STYLE,)))))

    # -- moves
    PP = ('param', '#0')
    for sn, st in style.items():
        for sec in sorted(sect.values()):
            for t in (sorted(known) + near if sec == none else ['', 'infill', 'skirt', 'TYPE:FILL']):
                tag0 = feat['solid_infill']
                if sn == 'off': want = {(st, sec, tag0)}
                elif sec != none:
                    want = {(st, sec, feat[sname[sec]])}
                elif sn in ('unknown', 'slic3r_pe') and t in INLINE: want = {(style['slic3r_pe'], sec, feat[INLINE[t]])}
                else: want = {(st, sec, tag0)}

                def setup(s):
                    s.store(PP, ('command', 'comment'), C(t)); s.store(PP, (TAG,), C(tag0))
                outs = go(move, st, sec, setup, LV(PP, ()))
                judge(move, "move with comment '%s' in style %s, section %s" % (t, sn, sname[sec]), outs, want, lambda s: (s.load(th, (STYLE,)), s.load(th, (SECTION,)), s.load(PP, (TAG,))))
        outs = go(move, st, none, lambda s: s.store(PP, (TAG,), C(tag0)), LV(PP, ()))
        for _, s in outs:
            if not any(v and t[0] == 'op' and t[1] in ('==', 'or') for t, v in s.facts.items()):
                cx.ob(s.load(PP, (TAG,)) == C(tag0) and s.load(th, (STYLE,)) == C(st), 'other', move, "a comment that is none of the style's leaves feature and style unchanged", detail="style %s: feature becomes %s" % (sn, show(s.load(PP, (TAG,)))))

    # -- the start state, and the tracker
    for f in p.funcs.values():
        if f.get('ctor') and f.get('cls') == CLS and not f.get('impl') and not f['p']:
            outs = Engine(p, nomerge=True).run(f, State(mon=()), this=LV(th, ()))
            for k, s, v in outs:
                a, b = s.load(th, (STYLE,)), s.load(th, (SECTION,))
                if is_c(a) and is_c(b): cx.ob(b[1] == none and a[1] in (style['unknown'], style['off']), 'start', f, "a new tracker is in no section", detail="style %s, section %s" % (a[1], b[1]))
    tracker(cx, move)


def tracker(cx, move):
    p = cx.p
    up = next((f for f in p.funcs.values() if f['q'] == 'gcode_position::update' and len(f['p']) == 4), None)
    if up is None: cx.undecided.append(('P38', 'tracker update', '')); return
    ids = []
    def on_call(E, s, ci):
        if ci.q == 'gcode_position::add_position': s.mon = (0,); return [(s, C(None))]
        if ci.fid == move['fid']: s.mon = ((s.mon or (0,))[0] + 1,); return [(s, C(None))]
        if ci.q == 'gcode_position::get_current_position_ptr': return None
        return None
    E = Engine(p, on_call=on_call, inline_if=lambda g: g['q'].startswith('gcode_position::') and g.get('b') and len(list(walk(g['b']))) < 40 or g.get('cls') in ())
    try: outs = E.run(up, State(mon=(0,)), args={q['n']: (arg(i) if not q['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, q in enumerate(up['p'])})
    except AnalysisError as e: cx.undecided.append(('P38', 'tracker update', str(e)[:160])); return
    ns = {s.mon for k, s, v in outs if k == 'R'}
    cx.ob(all(m and m[0] >= 1 for m in ns), 'tracker', up, "each line's comment is looked at once its position is added", detail="calls on the paths: " + str(sorted(ns, key=str)))
