"""P43: the first lines of the target file

Constant propagation of first lines (the slicers' identification lines, with both line endings, near misses and one symbolic "any other" line) through the line loop of the welder up
to the second line; the order of what is written is compared with the contract.
"""
from ._lib import *
from .features import folded, feasible
from .welder import PG, FLUSH, W, STREAM, wf

WG, WC, PARSE = 'arc_welder::write_gcode_to_file', 'arc_welder::add_arcwelder_comment_to_target', 'gcode_parser::try_parse_gcode'
IDS = [';FLAVOR:UltiGCode', ';FLAVOR:UltiGCode\r', '; generated by PrusaSlicer', '; generated by PrusaSlicer 2.3.0+win64 on 2021-01-01 at 10:00:00 UTC', '; generated by PrusaSlicer 2.4.0\r']
OTHER = [None, '', 'G28', ';FLAVOR:Marlin', ';FLAVOR:UltiGCode2', '; generated by SuperSlicer 2.3', 'M117 ; generated by PrusaSlicer']


@rule('P43', "Inspects arc_welder::process of the current source. Domain: constants, over a finite alphabet of first lines, on all paths up to the second line.")
def p43(cx):
    p = cx.p
    fn = p.find('arc_welder::process')
    for q in (WG, WC, PG): p.find(q)
    LINE, SECOND = ('ghost', 'line'), ('line', C('second'))
    n = 0
    for t in IDS + OTHER:
        first = C(t) if t is not None else ('line', C('first'))

        def oc(E, s, ci):
            q = ci.q
            done, out = s.mon
            if q == 'std::getline':
                lv = ci.lvs[1]
                e = s.copy()
                e.env[STREAM] = C(0); e.mon = ('end', out)
                if done in ('2', 'end'): return [(e, LV(STREAM, ()))]
                s.env[STREAM] = C(1)
                if isinstance(lv, LV): s.store(lv.root, lv.path, first if done == '0' else SECOND)
                s.mon = ('1' if done == '0' else '2', out)
                return [(s, LV(STREAM, ()))] + ([(e, LV(STREAM, ()))] if done == '1' else [])
            if ci.this is not None and isinstance(ci.this, LV) and ci.this.root == STREAM and ci.name in ('operator bool', 'operator!'):
                return [(s, s.env[STREAM] if ci.name == 'operator bool' else mk_not(s.env[STREAM]))]
            if q == PARSE:
                if isinstance(ci.lvs[1], LV): s.store(ci.lvs[1].root, ci.lvs[1].path, ('parsed', ci.args[0]))
                return [(s, ('call', PARSE, tuple(ci.args[:1])))]
            if q in (PG, WG, WC, FLUSH):
                what = {PG: 'line', WG: 'copy', WC: 'header', FLUSH: 'flush'}[q]
                x = ci.args[0] if ci.args and q in (PG, WG) else None
                if q == PG and len(ci.args) > 1 and ci.args[1] == C(1): what, x = 'last', None
                s.mon = (done, out + ((what, x, done),))
                if q == PG:
                    for f in ('current_arc_', 'waiting_for_arc_', 'unwritten_commands_', 'output_file_', 'p_source_position_'):
                        s.store(W.root, (f,), ('mut', PG, wf(s, f), (C(E.nid(ci.node)),)))
                return [(s, C(0))]
            if q in ('arc_welder::get_progress_', 'arc_welder::on_progress_', 'arc_welder::get_file_size'):
                return [(s, C(1) if q.endswith('on_progress_') else ('call', q, (('n', E.nid(ci.node)),)))]
            if q == 'arc_welder::reset':
                s.store(W.root, ('lines_processed_',), C(0))
                return [(s, C(0))]
            return folded(E, s, ci)
        E = Engine(p, opaque={PG, WG, WC, FLUSH, PARSE, 'arc_welder::get_progress_', 'arc_welder::on_progress_', 'arc_welder::get_file_size', 'arc_welder::reset',
                              'utilities::get_temp_file_path_for_file', 'utilities::is_same_file'}, on_call=oc, key=lambda s: (s.mon, s.load(W.root, ('lines_processed_',))), skip=logskip(p))
        seqs = {}
        for k, s, v in E.run(fn, State(mon=('0', ()))):
            if s.mon[0] == '0' or contradictory(s) or not feasible(s): continue
            seqs.setdefault(tuple((a, b, d) for a, b, d in s.mon[1] if a not in ('flush', 'last')), s)
        cx.funcs.add(fn['q'])
        name = 'any other line' if t is None else repr(t)
        if not seqs: cx.undecided.append(('P43', cx.at(fn), name, 'no path')); continue
        want = [('copy', first), ('header', None)] if t in IDS else [('header', None), ('line', ('parsed', first))]
        firsts = {tuple((a, b) for a, b, d in q if d == '1') for q in seqs}
        if t is None or len(firsts) > 1 and tuple(want) in firsts:
            # undecided comparisons with the unknown line: each outcome has to be one of the two orders
            ok = all(f in ((('copy', first), ('header', None)), (('header', None), ('line', ('parsed', first)))) for f in firsts)
        else:
            ok = firsts == {tuple(want)}
        n += 1
        if not ok and any(b is not None and b not in (first, ('parsed', first)) for f in firsts for a, b in f):
            cx.undecided.append(('P43', cx.at(fn), name, str(firsts)[:200])); continue
        cx.ob(ok, 'first-line', fn, "first line %s: %s" % (name, 'it is copied as it is, and the header follows' if t in IDS else 'the header is written and then the line is processed'),
              detail='order is %s' % [[a for a, b in f] for f in sorted(firsts, key=repr)])
        later = [a for q in seqs for a, b, d in q if d == '2' and a != 'line']
        cx.ob(not later, 'header-once', fn, 'nothing but the line itself is written for a later line', detail=str(later[:3]))
        cx.ob(any(d == '2' for q in seqs for a, b, d in q), 'second-line', fn, 'the lines behind the first one are processed')
    cx.need(n, 3, 'first lines followed')
