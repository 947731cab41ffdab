"""P15-P18, P36: the straightener (arcs back to moves), for every firmware and version."""
import re
from ._lib import *
from sa.loops import resolve, infos
from sa import effects

G1 = 'firmware::g1_command'
SETPOS = 'firmware::set_current_position'
INTERP = '::interpolate_arc'
DROP = ('cast',)


def classes(cx):
    cs = sorted(cx.p.subclasses('firmware')) if cx.p.records.get('firmware') else []
    cs = [c for c in cs if c != 'firmware']
    cx.need(len(cs), 1, 'firmware classes')
    return cs


def bare(t):
    """the value without conversions between numeric types"""
    memo = {}
    def f(t):
        if not isinstance(t, tuple): return t
        r = memo.get(id(t))
        if r is not None: return r[1]
        if t and t[0] == 'cast' and len(t) == 3 and isinstance(t[2], tuple): r = f(t[2])
        else:
            r = tuple(f(x) if isinstance(x, tuple) else x for x in t)
            if all(a is b for a, b in zip(r, t)): r = t
        memo[id(t)] = (t, r)
        return r
    return f(t)


def norm_version(s): return re.sub(r'[^0-9a-z]+', '_', s.lower().lstrip('v')).strip('_')


def strings_of(node):
    return [x['v'] for x in walk(node) if isinstance(x, dict) and x.get('k') == 'str']


def names_of(cx, fn, t):
    """the list of names a term denotes: a literal list, or a static table initialised with one"""
    while t[0] == 'call' and t[1].endswith('ctor') and len(t[2]) >= 1: t = t[2][0]
    if t[0] == 'arr': return [x[1] for x in t[1:] if is_c(x)]
    if t[0] == 'init' and t[1][0] == 'g':
        n = t[1][1].split('::')[-1]
        for x in walk(fn['b']):
            if isinstance(x, dict) and x.get('n') == n and x.get('i') is not None:
                r = strings_of(x['i'])
                if r: return r
        g = cx.p.globals.get(t[1][1])
        if g and g.get('i') is not None: return strings_of(g['i'])
    return None


class Apply:
    """what apply_arguments of a firmware class does: version names, and per version index the routine and the supported arguments"""

    def __init__(self, cx, cls):
        self.cls = cls
        self.fn = fn = cx.p.find(cls + '::apply_arguments')
        self.names = self.latest = None
        self.calls = 0

        def on(E, s, ci):
            if ci.q == 'firmware::set_versions':
                self.calls += 1
                self.names, self.latest = names_of(cx, fn, ci.args[0]), ci.args[1]
                R = ci.this.root
                s.store(R, ('version_index_',), ('idx',))
                return [(s, C(0))]
            if ci.q == 'firmware_arguments::set_used_arguments':
                s.env[('ghost', 'used')] = ci.args[0]
                return [(s, C(0))]
        E, self.outs = paths(cx, fn, on_call=on)
        self.R = ('this', cls)
        self.by = {}
        n = len(self.names) if self.names else 0
        for i in range(n):
            for k, s, v in self.outs:
                if k != 'R': continue
                t = s.copy()
                if not t.assume(mk_eq(('idx',), C(i)), True): continue
                t = settle(t)
                if t is None or contradictory(t): continue
                whole = t.load(self.R, ())
                f = [x for x in subterms(whole) if x[0] == 'func']
                used = resolve(t, t.env.get(('ghost', 'used'), C(None)))
                ver = [x for x in self.enum_fields(cx, t)]
                self.by.setdefault(i, []).append((f, used, ver, t))

    def enum_fields(self, cx, t):
        for f in cx.p.fields(self.cls):
            ty = f['ty'].split('::')[-1]
            for en, consts in cx.p.enums.items():
                if en.split('::')[-1] == ty and 'version' in en.lower():
                    v = bare(resolve(t, t.load(self.R, (f['n'],))))
                    yield f['n'], consts, v


ARGREAD = re.compile(r'^firmware_arguments::')


def reads_of(cx, roots):
    """names of the firmware arguments read by the functions and their callees"""
    out = set()
    for fid in effects.reach(cx.p, roots):
        f = cx.p.funcs.get(fid)
        if not f or not f.get('b'): continue
        for x in walk(f['b']):
            if isinstance(x, dict) and x.get('k') == 'mem' and x.get('cls', x.get('rec', '')) .endswith('firmware_arguments'): out.add(x['f'])
    return out


@rule('P18', DOM + "For every class derived from the firmware base, the effect of applying its arguments is computed for each index of its table of version names: it must select exactly one routine and one list of parameters, the enumerator and the routine must carry the version's name; the search for the index, the tests for valid versions and the construction per firmware type are checked for all paths.")
def p18(cx):
    p = cx.p
    cs = classes(cx)
    for c in cs:
        a = Apply(cx, c)
        fn = a.fn
        if a.names is None:
            cx.undecided.append(('versions', c)); continue
        cx.ob(a.calls >= 1 and is_c(a.latest) and a.latest[1] in a.names, 'latest-offered', fn, 'the release version is one of the offered versions', detail=show(a.latest))
        cx.ob(len(set(a.names)) == len(a.names), 'names-distinct', fn, 'the offered version names are distinct', detail=str(a.names))
        routines = {}
        suffixes = {}
        for i, name in enumerate(a.names):
            rs = a.by.get(i, [])
            fs = {x[1] for f, u, v, t in rs for x in f}
            us = {u for f, u, v, t in rs}
            cx.ob(len(rs) >= 1 and len(fs) == 1 and all(len(set(f)) == 1 for f, u, v, t in rs), 'one-routine', fn, 'each offered version selects exactly one interpolation routine', detail='%s: %s' % (name, sorted(fs)))
            cx.ob(len(us) == 1 and all(u != C(None) for u in us), 'one-parameter-set', fn, 'each offered version selects exactly one set of supported parameters', detail='%s: %s' % (name, [show(u) for u in us]))
            routines[i] = fs
            for f, u, v, t in rs:
                for fname, consts, val in v:
                    if not is_c(val) and val != ('idx',): continue
                    val = i if val == ('idx',) else val[1]
                    en = [k for k, x in consts.items() if x == val]
                    same = [k for k in consts if norm_version(k.split('::')[-1]) == norm_version(name)]
                    if same: cx.ob(set(en) & set(same), 'numbering', fn, "the number of an offered version is the enumerator of that version", detail='%s is %s' % (name, en))
                    else: cx.ob(bool(en), 'numbering', fn, "the number of an offered version is the enumerator of that version", detail='%s has number %s' % (name, val))
        routine_fns = {x for fs in routines.values() for x in fs} | set(p.funcs[m]['fid'] for m in p.funcs if p.funcs[m].get('cls') == c)
        for i, name in enumerate(a.names):
            mine = [f for f in routine_fns if f in p.funcs and p.funcs[f]['q'].endswith('_' + norm_version(name))]
            if len(mine) == 1 and routines[i]:
                cx.ob(routines[i] == {mine[0]}, 'routine-of-version', fn, "a version selects the routine written for it", detail='%s selects %s' % (name, sorted(p.funcs[x]['q'] for x in routines[i])))
        allsel = {x for fs in routines.values() for x in fs}
        cx.ob(len(allsel) == len(a.names) or len(allsel) == 0, 'routines-distinct', fn, 'different versions select different routines', detail=str(sorted(allsel)))
        # parameters
        for i, name in enumerate(a.names):
            for f, u, v, t in a.by.get(i, []):
                lst = names_of(cx, fn, u)
                if lst is None or len(f) < 1: continue
                rd = reads_of(cx, [x[1] for x in f])
                fields = {x['n'] for x in p.fields('firmware_arguments')}
                for nm in lst:
                    cx.ob(nm in fields, 'parameter-known', fn, 'each supported parameter exists', detail=nm)
        defaults(cx, c)
        ctor = [f for f in p.funcs.values() if f.get('cls') == c and f.get('kind') == 'ctor' or f['q'] == c + '::' + c]
        for f in ctor:
            if f.get('impl'): continue
            r = effects.reach(p, [f['fid']])
            cx.ob(fn['fid'] in r, 'selects-on-construction', f, 'constructing a firmware selects its version')
    search(cx)
    valid(cx)
    dispatch(cx, cs)


def defaults(cx, c):
    fn = cx.p.find(c + '::get_default_arguments_for_current_version', optional=True)
    if fn is None: return
    E, outs = paths(cx, fn)
    for k, s, v in outs:
        if k != 'R': continue
        r = retval(s, v)
        for f in ('version', 'firmware_type'):
            cx.same(fld(r, f), fld(('fld', ('init', ('this', c)), 'args_'), f), 'defaults-keep-' + f, fn, 'the default arguments of a firmware keep its type and version')


def search(cx):
    fn = cx.p.find('firmware::set_versions')
    R = ('this', 'firmware')
    E = Engine(cx.p, nomerge=True)
    names, latest = arg(0), arg(1)
    st = State(mon=())
    outs = E.run(fn, st, args={q['n']: arg(i) for i, q in enumerate(fn['p'])})
    cx.funcs.add(fn['q'])
    ver = ('fld', ('fld', ('init', R), 'args_'), 'version')
    n = 0
    for li in infos(E, fn):
        for b in li.backs:
            if contradictory(b): continue
            v = resolve(b, b.load(R, ('version_index_',)))
            eqs = [t for t, val in b.facts.items() if t[0] == 'op' and t[1] == '==' and any(x[0] == 'fld' and isinstance(x[2], tuple) for x in subterms(t))]
            hit = [t for t in eqs if b.facts[t]]
            if v[0] == 'phi' and v[2] == R:
                cx.ob(not hit, 'version-found', fn, 'the index of the requested version is the index of its name', detail='the requested name is passed over'); n += 1
                continue
            idx = {x[2][1] for t in hit for x in subterms(t) if x[0] == 'fld' and isinstance(x[2], tuple)}
            n += 1
            cx.ob(len(hit) >= 1 and bare(v) in {bare(i) for i in idx}, 'version-found', fn, 'the index of the requested version is the index of its name', detail='index %s where %s' % (show(v), '; '.join(map(show, hit))))
            for t in hit:
                other = [x for x in (t[2], t[3]) if not any(y[0] == 'fld' and isinstance(y[2], tuple) for y in subterms(x))]
                for w in other:
                    islast = mk_eq(ver, ('c', 'LATEST_RELEASE'))
                    for want, cond in ((latest, True), (ver, False)):
                        u = b.copy()
                        if u.holds(islast) not in (None, cond): continue
                        if not u.assume(islast, cond): continue
                        u = settle(u)
                        if u is None or contradictory(u): continue
                        y = resolve(u, w)
                        ok = y == want or y in (ver, latest) and u.holds(mk_eq(ver, latest)) is True
                        if y in (ver, latest): cx.ob(ok, 'version-requested', fn, 'the version searched is the requested one, or the release version for LATEST_RELEASE', detail=show(y))
    cx.ob(True, 'version-search', fn, 'the search for the version was analysed')
    if n == 0: cx.undecided.append(('version-search', fn['q']))
    # a version that is not found: the last one
    for li in infos(E, fn):
        for ph, v in li.entry.items():
            if ph[0] == 'phi' and ph[2] == R and ph[3] == ('version_index_',):
                w = bare(v)
                size = [x for x in subterms(w) if x[0] == 'call' and x[1].endswith('::size')]
                ok = size and equal(w, sub(size[0], C(1)))
                cx.ob(bool(ok), 'version-default', fn, 'an unknown version selects the last offered one', detail=show(w))


def valid(cx):
    fn = cx.p.find('firmware::is_valid_version')
    E = Engine(cx.p, nomerge=True)
    outs = E.run(fn, State(mon=()), args={q['n']: arg(i) for i, q in enumerate(fn['p'])})
    cx.funcs.add(fn['q'])
    lat = mk_eq(arg(0), C('LATEST_RELEASE'))
    for k, s, v in outs:
        if k != 'R': continue
        v = resolve(s, v)
        if not is_c(v): cx.undecided.append(('valid', show(v)[:100])); continue
        same = [t for t, x in s.facts.items() if x and t[0] == 'op' and t[1] == '==' and arg(0) in (t[2], t[3]) and t != lat]
        if v[1]: cx.ob(s.facts.get(lat) is True or bool(same), 'valid-version', fn, 'a version is valid only if it is LATEST_RELEASE or an offered name')
        else: cx.ob(s.holds(lat) is False and not same, 'valid-version', fn, 'LATEST_RELEASE and every offered name is valid')


def dispatch(cx, cs):
    """the firmware of a type is constructed, checked and asked for defaults by the code of that type"""
    p = cx.p
    en = [c for n, c in p.enums.items() if n.split('::')[-1] == 'firmware_types']
    if not en: raise AnalysisError('enumeration of firmware types not found')
    consts = {k.split('::')[-1].lower(): v for k, v in en[0].items()}
    g = [v for n, v in p.globals.items() if n.split('::')[-1] == 'firmware_type_names' and v.get('i') is not None]
    if g:
        names = strings_of(g[0]['i'])
        for k, v in consts.items():
            cx.ob(0 <= v < len(names) and names[v].lower() == k, 'type-names', 'ArcWelderInverseProcessor/firmware_types.h', 'the name of each firmware type stands at its number', detail='%s=%s in %s' % (k, v, names))
    bycls = {c: consts.get(c) for c in cs}
    n = 0
    ty_sw = [f for f in p.funcs.values() if f.get('b') and not f.get('impl') and any(isinstance(x, dict) and x.get('k') == 'switch' and 'firmware_types' in str(x.get('c', {}).get('ty', '')) + str(strip_casts(x.get('c')).get('ty', '')) for x in walk(f['b']))]
    for f in ty_sw:
        for x in walk(f['b']):
            if not (isinstance(x, dict) and x.get('k') == 'switch'): continue
            arms = arms_of(x)
            if not arms: continue
            seen = set()
            for vals, nodes in arms:
                used = set()
                for nd in nodes:
                    for y in walk(nd):
                        if not isinstance(y, dict): continue
                        if y.get('k') == 'new': used.add(str(y.get('ty', '')).rstrip(' *').split('::')[-1])
                        if y.get('this') is not None:
                            used.add(str(strip_casts(y['this']).get('ty', '')).replace('const ', '').rstrip(' *&').split('::')[-1])
                used &= set(cs)
                for v in vals:
                    mine = [c for c, k in bycls.items() if k == v]
                    seen |= set(mine)
                    if mine and used:
                        n += 1
                        cx.ob(used == set(mine), 'type-dispatch', f, 'each firmware type is handled by the code of that firmware', nodes[0] if nodes else x, detail='type %s uses %s' % (mine, sorted(used)))
            # a switch that hands types to their firmware must know all of them
            if seen: cx.ob(seen == set(c for c in cs if bycls[c] is not None), 'type-complete', f, 'every firmware type is handled', x, detail='missing: %s' % sorted(set(cs) - seen))
    if n == 0: cx.undecided.append(('type-dispatch', 'no switch over the firmware type'))
    byname = p.find('get_firmware_type_from_string', optional=True)
    if byname:
        E = Engine(cx.p, nomerge=True)
        outs = E.run(byname, State(mon=()), args={q['n']: arg(i) for i, q in enumerate(byname['p'])})
        cx.funcs.add(byname['q'])
        for k, s, v in outs:
            hit = [t for t, x in s.facts.items() if x and t[0] == 'op' and t[1] == '==' and arg(0) in (t[2], t[3])]
            if k == 'R' and hit:
                idx = {y[2][1] for t in hit for y in subterms(t) if y[0] == 'fld' and isinstance(y[2], tuple)}
                if idx: cx.ob(bare(resolve(s, v)) in {bare(i) for i in idx}, 'type-by-name', byname, 'the number of a firmware type is the place of its name', detail=show(v))


def strip_casts(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren') and e.get('e'): e = e['e']
    return e or {}


def arms_of(sw):
    """[(values, statements)] of a switch; statements up to the next break"""
    body = sw['b']
    items = body['s'] if body and body['k'] == 'block' else [body]
    out, cur = [], None
    for it in items:
        vals = []
        while it is not None and it['k'] in ('case', 'default'):
            if it['k'] == 'case': vals.append(it['v'].get('cv', it['v'].get('v')))
            it = it['s']
        if vals:
            cur = (vals, [])
            out.append(cur)
        if it is not None and cur is not None: cur[1].append(it)
    return out


# ------------------------------------------------------------------ P17
AX = 'xyzef'


def dt(x, n): return call('utilities::dtos', x, n)


@rule('P17', DOM + "The text of a linear move is computed for every path: each parameter is present exactly when the path facts say that it changed and its value is the difference or the target as the mode facts say; every function that writes a move must, on every path, append exactly that move (preceded by a line break unless it is the first) and then make the move's own end the tracked position.")
def p17(cx):
    from .arc import text_parts
    p = cx.p
    fn = p.find(G1)
    E, outs = paths(cx, fn, pure={'utilities::dtos'})
    R = ('init', ('this', 'firmware'))
    if fn.get('cls') != 'firmware': R = ('init', ('this', fn['cls']))
    pos, st = fld(R, 'position_'), fld(R, 'state_')
    n = 0
    for k, s, v in outs:
        if k != 'R': continue
        v = retval(s, v)
        rel, erel = fld(st, 'is_relative'), fld(st, 'is_extruder_relative')
        for S in cases(s, [rel, erel]):
            for cs, x in split_cases(resolve(S, v)):
                T = S.copy()
                if not all(T.assume(a, b) for a, b in cs) or contradictory(T): continue
                n += 1
                cmd, words = text_parts(resolve(T, x))
                letters = [w[0].lower() for w in words]
                cx.ob(cmd in ('G1', 'G0'), 'move', fn, 'the line is a linear move', detail=show(x)[:200])
                cx.ob(len(set(letters)) == len(letters) and set(letters) <= set(AX), 'once', fn, 'every parameter appears at most once', detail=''.join(letters))
                vals = {a.lower(): b for a, b in words}
                for a in AX:
                    changed = NOT(eq(fld(pos, a), fld(arg(0), a)))
                    ok = entails(T, changed if a in vals else NOT(changed))
                    if not ok and a in vals and entails(T, NOT(changed)) is False and T.holds(changed) is None:
                        pass
                    cx.ob(ok, 'states-' + a.upper(), fn, '%s is stated exactly when it changes' % a.upper(), detail='%s: %s' % ('written' if a in vals else 'not written', show(x)[:200]))
                    if a not in vals: continue
                    r = T.holds(erel if a == 'e' else rel) if a != 'f' else False
                    want = sub(fld(arg(0), a), fld(pos, a)) if r else fld(arg(0), a)
                    g = vals[a]
                    if g[0] != 'call' or g[1] != 'utilities::dtos':
                        cx.undecided.append(('value', show(g)[:100])); continue
                    cx.same(resolve(T, g[2][0]), want, 'value-' + a.upper(), fn, '%s is the target, or the difference to the previous position in relative mode' % a.upper(), T.facts)
                    least = dict(x=3, y=3, z=3, e=5, f=0)[a]
                    pr = g[2][1]
                    if is_c(pr): cx.ob(pr[1] >= least, 'decimals-' + a.upper(), fn, '%s is written with its decimals' % a.upper(), detail=show(pr))
    cx.need(n, 2, 'forms of the linear move')
    m = 0
    for f in p.funcs.values():
        if not f.get('b') or f['q'] == G1: continue
        if not any(c.get('nm') == 'g1_command' for c in calls(f['b'])): continue
        m += 1
        emitter(cx, f)
    cx.need(m, 1, 'functions that write moves')


def emitter(cx, f):
    root = ('this', f['cls'])

    def on(E, s, ci):
        if ci.q.endswith('::g1_command'):
            l = ci.lvs[0]
            t = s.load(l.root, l.path) if l else ci.args[0]
            at = s.load(root, ('position_',))
            old = s.env.get(('ghost', 'g1'), ())
            s.env[('ghost', 'g1')] = old + ((t, at, s.load(root, ('gcodes_',))),)
            return [(s, ('g1', t))]
    E, outs = paths(cx, f, on_call=on)
    pos0, g0 = s0(root, 'position_'), s0(root, 'gcodes_')
    for k, s, v in outs:
        if k != 'R' or contradictory(s): continue
        em = s.env.get(('ghost', 'g1'), ())
        pos, g = s.load(root, ('position_',)), s.load(root, ('gcodes_',))
        if not em:
            cx.ob(samepos(cx, s, pos, pos0), 'position-kept', f, 'a path that writes no move leaves the tracked position', detail=show(pos)[:200])
            cx.same(g, g0, 'text-kept', f, 'a path that writes no move leaves the text', s.facts)
            continue
        cx.ob(len(em) == 1, 'one-move', f, 'the function writes one move', detail=str(len(em)))
        t, at, before = em[-1]
        cx.ob(samepos(cx, s, em[0][1], pos0), 'from-tracked', f, 'the move is written relative to the tracked position', detail=show(em[0][1])[:200])
        cx.ob(samepos(cx, s, pos, t), 'position-advanced', f, "after a move the tracked position is the move's end", detail='position %s, move to %s' % (show(pos)[:300], show(t)[:300]))
        empty = [S for S in cases(s, [lt(C(0), call('std::basic_string<char>::size', g0))])]
        parts = flat(g)
        tail = [x for x in parts]
        okk = False
        if tail and tail[0] == g0 and tail[-1] == ('g1', t):
            mid = tail[1:-1]
            if mid == [C('\n')] or mid == [C(10)]: okk = not nonempty(s, g0, False)
            elif not mid: okk = nonempty(s, g0, True) is False or isempty(s, g0)
        elif tail and tail[-1] == ('g1', t) and len(tail) == 1: okk = isempty(s, g0)
        cx.ob(okk, 'text-appended', f, 'the move is appended as a line of its own', detail=show(g)[:300])
    cx.need(sum(1 for k, s, v in outs if k == 'R' and s.env.get(('ghost', 'g1'))), 1, 'moves written by ' + f['q'])


def s0(root, f): return sel(('init', root), f)


def flat(x):
    from .arc import flat_cat
    return flat_cat(x)


def samepos(cx, s, a, b):
    if a == b: return True
    for q in AX:
        x, y = resolve(s, fld(a, q)), resolve(s, fld(b, q))
        if not equal(x, y) and pit.witness(x, y, s.facts, tries=40, seed=cx.seed) is not None: return False
    return True


def about_empty(t, g):
    """+1: the fact says g is empty, -1: not empty, 0: something else"""
    if t[0] == 'call' and t[1].endswith('::empty') and g in t[2]: return 1
    if t[0] == 'op' and t[1] == '==' and len(t) == 4 and (t[2] == C('') and t[3] == g or t[3] == C('') and t[2] == g): return 1
    sz = [x for x in subterms(t) if x[0] == 'call' and x[1].rsplit('::', 1)[-1] in ('size', 'length') and g in x[2]]
    if t[0] == 'op' and sz:
        a, b = bare(t[2]), bare(t[3])
        if t[1] == '==' and C(0) in (a, b): return 1
        if t[1] == '<' and a == C(0): return -1
        if t[1] == '<' and b == C(1): return 1
    return 0


def emptiness(s, g):
    for t, v in s.facts.items():
        if t[0] == 'val': continue
        k = about_empty(t, g)
        if k: return (k == 1) == v
    return None


def isempty(s, g): return emptiness(s, g) is True
def nonempty(s, g, dflt): return emptiness(s, g) is True if not dflt else emptiness(s, g)


# ------------------------------------------------------------------ P16, P36: the arc routines
SYM = lambda n: ('init', ('param', '#' + n))
INL_UTIL = re.compile(r'radians|constrain|sqf?$|reciprocal|minf?$|maxf?$')


def small(t, n=12):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                n -= 1
                if n < 0: return False
            st.extend(y for y in x if isinstance(y, tuple))
    return True


class ArcRun:
    """interpolate_arc of a firmware class with one of its routines: every move written and every way to end"""

    def __init__(self, cx, cls, routine, cw=None):
        p = cx.p
        self.cw = cw
        self.cls, self.cx = cls, cx
        self.fn = fn = p.find(cls + INTERP)
        self.R = R = ('this', cls)
        self.moves = {}
        L = ('ghost', 'last')

        def on(E, s, ci):
            if ci.name == 'g1_command':
                l = ci.lvs[0]
                t = s.load(l.root, l.path) if isinstance(l, LV) else ci.args[0]
                pos = tuple(resolve(s, fld(t, q)) for q in 'xyze')
                self.moves.setdefault((pos, frozenset(s.facts.items())), (s.copy(), pos, s.load(R, ('gcodes_',)), ci))
                s.env[L] = ('pos',) + pos
                return [(s, ('g1', t))]
            if ci.name == 'memcpy' and len(ci.node['a']) == 3:
                a, b = strip_casts(ci.node['a'][0]), strip_casts(ci.node['a'][1])
                if a.get('ty', '').endswith(']') and b.get('ty', '').endswith(']'):
                    outs = []
                    for s1, la in E.lv(a, ci.frame, s):
                        for s2, lb in E.lv(b, ci.frame, s1):
                            s2.store(la.root, la.path, s2.load(lb.root, lb.path))
                            outs.append((s2, C(0)))
                    return outs
        util = {f['q'] for f in p.funcs.values() if f['q'].startswith('utilities::') and not INL_UTIL.search(f['q'])}
        inl = re.compile('phi')
        self.defs, names = {}, {}

        def store(E, s, lv, v, e, fr):
            # long values of local numbers get a name, so that terms stay small
            if lv.root[0] != 'v': return
            v = s.load(lv.root, lv.path)
            if v[0] not in ('op', 'call', 'cast', 'ite') or small(v): return
            if any(x[0] in ('phi', 'join', 'lvref', 'addr') for x in subterms(v)): return
            if v not in names:
                names[v] = ('init', ('let', '%s%d' % (e.get('n', '') if isinstance(e, dict) and isinstance(e.get('n', ''), str) else 'v', len(names))))
                self.defs[names[v]] = v
            s.store(lv.root, lv.path, names[v])
        self.E = E = Engine(p, gate=True, on_call=on, on_store=store, unroll=8, pure=util, skip=logskip(p), key=lambda s: s.env.get(L) == C(None), split_loops=True)
        st = State(mon=())
        st.env[L] = C(None)
        n = 0
        for f in p.fields(cls):
            if '(' in f['ty']:
                want = routine in p.funcs and len(p.funcs[routine]['p']) == (f['ty'].count(',') + 1 if f['ty'].split(')(')[-1].strip(')') else 0)
                st.store(R, (f['n'],), ('func', routine)); n += 1
        a = {q['n']: (arg(i) if not q['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, q in enumerate(fn['p'])}
        if cw is not None: a[fn['p'][4]['n']] = C(cw)
        self.outs = E.run(fn, st, args=a)
        cx.funcs.add(fn['q']); cx.funcs.add(routine.split('(')[0])
        self.rfn = p.funcs[routine]
        self.infos = infos(E)
        self.last = L

    def expand(self, t, keep=()):
        for _ in range(40):
            m = {x: self.defs[x] for x in subterms(t) if x in self.defs and x not in keep}
            if not m: return bare(t)
            t = norm.subst(t, m, False)
        return bare(t)

    def loop_moves(self):
        out = []
        for s, pos, g, ci in self.moves.values():
            ph = {x for q in pos for x in subterms(q) if x[0] == 'phi'}
            if ph and not contradictory(s): out.append((s, pos, g, ci))
        return out


def runs_of(cx, ways=(None,)):
    for c in classes(cx):
        a = Apply(cx, c)
        rs = sorted({x[1] for i in a.by for f, u, v, t in a.by[i] for x in f if x[1] in cx.p.funcs})
        if not rs:
            cx.undecided.append(('routines', c)); continue
        for r in rs:
            for w in ways: yield ArcRun(cx, c, r, w)


def final_move(cx, r):
    p0 = ('init', r.R)
    n = 0
    fn = r.rfn
    for k, s, v in r.outs:
        if k != 'R' or contradictory(s): continue
        last = s.env.get(r.last)
        g = s.load(r.R, ('gcodes_',))
        cx.ob(retval(s, v) == g, 'text-returned', r.fn, 'the moves written are what is returned', detail=show(retval(s, v))[:200])
        if last == C(None):
            continue
        n += 1
        for cs, x in split_cases(resolve(s, last)):
            S = s.copy()
            if not all(S.assume(a, b) for a, b in cs) or contradictory(S): continue
            for x in lasts(r, x):
                if x == C(None): continue
                if x[0] != 'pos':
                    cx.undecided.append(('last-move', show(x)[:200])); continue
                for i, q in enumerate('xyze'):
                    cx.same(r.expand(resolve(S, x[1 + i])), fld(arg(0), q), 'ends-at-' + q.upper(), fn, "the last move written ends at the arc's commanded %s" % q.upper())
    cx.need(n, 1, 'ways to end %s after moves' % fn['q'])
    for s, pos, g, ci in r.moves.values():
        if any(x == sel(p0, 'gcodes_') for x in subterms(g)):
            cx.ob(False, 'starts-empty', r.fn, 'the text of an arc starts empty', detail=show(g)[:200]); break
    else: cx.ob(True, 'starts-empty', r.fn, 'the text of an arc starts empty')


def lasts(r, x, seen=()):
    """the last moves a joined or loop-varying value stands for"""
    if x in seen or len(seen) > 6: return set()
    if x[0] == 'ite': return lasts(r, x[2], seen + (x,)) | lasts(r, x[3], seen + (x,))
    if x[0] == 'join' and x in r.E.join_parts:
        return {z for f, v in r.E.join_parts[x] for z in lasts(r, v, seen + (x,))}
    if x[0] == 'phi':
        out, known = set(), False
        for li in li_of(r, x[1]):
            for b in li.backs:
                known = True
                out |= lasts(r, resolve(b, b.load(x[2], x[3])), seen + (x,))
        if known: return out
    return {x}


def theta_of(r, s, pos):
    """[(argument of cos/sin)] in the coordinates"""
    return {bare(x[2][0]) for q in pos[:2] for x in subterms(q) if x[0] == 'call' and re.search(r'(^|::)(cos|sin)f?$', x[1])}


def factor(t, lid=None):
    """(counter, rest) of counter * rest"""
    if t[0] == 'op' and t[1] == '*':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == 'phi': return a, b
    return None, None


def pick_theta(r):
    for s, pos, g, ci in r.loop_moves():
        for a in theta_of(r, s, pos):
            k, th = factor(a)
            if k is not None: return k, th
    return None, None


def li_of(r, lid):
    return [li for li in r.infos if li.lid == lid]


def steps(cx, r, what):
    """the moves of the loop"""
    fn = r.rfn
    lm = r.loop_moves()
    cx.need(len(lm), 1, 'moves in the loop of ' + fn['q'])
    k, th = pick_theta(r)
    if th is None:
        cx.undecided.append(('angle', fn['q'])); return
    if th not in r.defs: th = r.expand(th)
    T = N = None
    d = bare(r.defs.get(th, th))
    if d[0] == 'op' and d[1] == '/': T, N = d[2], d[3]
    if N is not None and N not in r.defs: N = r.expand(N)
    m = {th: SYM('theta')}
    keep = {th, N}
    r.scale = [norm.subst(f, {N: SYM('N')}) for f in factors(r.expand(T, keep))] if T is not None else []
    P0 = sel(('init', r.R), 'position_')
    px, py = fld(P0, 'x'), fld(P0, 'y')
    I, J = arg(1), arg(2)
    cxx, cyy = add(px, I), add(py, J)
    THETA = SYM('theta')
    if what == 'P36':
        for li in li_of(r, k[1]):
            e = li.entry.get(k)
            cx.ob(e is not None and bare(e) == C(1) and li.delta.get(k) == 1 or e is None, 'angle-step', fn, 'the angle grows by one segment per pass, starting with one', detail='%s, step %s' % (show(e) if e else None, li.delta.get(k)))
    for s, pos, g, ci in lm:
        node = ci.node
        if what == 'P16':
            travel(cx, r, s, pos, N, P0, k, fn, keep)
            continue
        x, y = [norm.subst(r.expand(q, keep), m) for q in pos[:2]]
        ang = {norm.subst(r.expand(a, keep), m) for a in theta_of(r, s, pos)}
        if ang:
            want = mul(k, THETA)
            if not any(t == k for a in ang for t in subterms(a)): continue
            for a in ang:
                if all(t[0] != 'init' or t == THETA for t in subterms(a)) and {t for t in varying(a)} <= {k}: cx.same(a, want, 'angle', fn, 'the angle of a point is its number times the angle of a segment', node=node)
            if not all(equal(a, want) for a in ang):
                cx.undecided.append(('angle', '; '.join(map(show, ang))[:200])); continue
            sub_ = {}
            for q in (x, y):
                for t in subterms(q):
                    if t[0] == 'call' and re.search(r'(^|::)cosf?$', t[1]): sub_[t] = SYM('cos')
                    if t[0] == 'call' and re.search(r'(^|::)sinf?$', t[1]): sub_[t] = SYM('sin')
            x, y = norm.subst(x, sub_), norm.subst(y, sub_)
            c_, s_ = SYM('cos'), SYM('sin')
            cx.same(x, add(sub(cxx, mul(I, c_)), mul(J, s_)), 'rotation-x', fn, 'a point of the arc is its start turned around start + (I, J)', node=node)
            cx.same(y, sub(sub(cyy, mul(I, s_)), mul(J, c_)), 'rotation-y', fn, 'a point of the arc is its start turned around start + (I, J)', node=node)
            continue
        ph = sorted({t for q in (x, y) for t in varying(q)}, key=repr)
        if not ph: continue      # the first round on its own; the later rounds include it
        ent = {}
        for t in ph:
            b0, path = base_of(t)
            for li in li_of(r, b0[1]):
                if b0 in li.entry: ent.setdefault(t, set()).add(r.expand(fld(li.entry[b0], *path)))
        if len(ph) != 2 or any(t not in ent for t in ph):
            cx.undecided.append(('radius-vector', fn['q'], str([show(t) for t in ph]))); continue
        # which is x, which is y
        a = [t for t in ph if all(equal(e, neg(I)) for e in ent[t])]
        b = [t for t in ph if all(equal(e, neg(J)) for e in ent[t])]
        cx.ob(len(a) == 1 and len(b) == 1, 'radius-start', fn, 'the radius vector starts as minus (I, J)', node, detail='; '.join(show(e) for t in ph for e in ent[t]))
        if len(a) != 1 or len(b) != 1: continue
        a, b = a[0], b[0]
        at = lambda q, u, v: norm.subst(q, {a: C(u), b: C(v)})
        cx.same(at(x, 0, 0), cxx, 'centre-x', fn, 'the centre is start + (I, J)', node=node)
        cx.same(at(y, 0, 0), cyy, 'centre-y', fn, 'the centre is start + (I, J)', node=node)
        Cx, Sx = sub(at(x, 1, 0), at(x, 0, 0)), sub(at(x, 0, 0), at(x, 0, 1))
        Sy, Cy = sub(at(y, 1, 0), at(y, 0, 0)), sub(at(y, 0, 1), at(y, 0, 0))
        cx.same(x, add(cxx, sub(mul(a, Cx), mul(b, Sx))), 'turn-linear', fn, 'a step turns the radius vector', node=node)
        cx.same(y, add(cyy, add(mul(a, Sy), mul(b, Cy))), 'turn-linear', fn, 'a step turns the radius vector', node=node)
        cx.same(Cx, Cy, 'turn', fn, 'a step turns the radius vector without shearing it', node=node)
        cx.same(Sx, Sy, 'turn', fn, 'a step turns the radius vector without shearing it', node=node)
        import random
        for t0 in (0.05, -0.05):
            v = pit.Val(random.Random(1))
            v.set(THETA, t0)
            try: cc, ss = v.ev(Cx), v.ev(Sx)
            except Exception: cx.undecided.append(('turn-sense', show(Sx)[:100])); continue
            cx.ob(abs(cc - 1) < 0.01 and abs(ss - t0) < 0.1 * abs(t0), 'turn-sense', fn, 'a step turns by the angle of a segment, counter-clockwise for a positive angle', node, detail='for %s: cos %s sin %s' % (t0, cc, ss))
        # the vector of the next pass is that of this point
        for t, v, c in ((a, x, cxx), (b, y, cyy)):
            b0, path = base_of(t)
            now = norm.subst(r.expand(resolve(s, s.load(b0[2], b0[3] + path)), keep), m)
            cx.same(now, sub(v, c), 'radius-kept', fn, 'the next step starts from the point written', node=node)
    if what == 'P36':
        direction(cx, r, T, fn)


def factors(t):
    if t[0] == 'op' and t[1] == '*': return factors(t[2]) + factors(t[3])
    return [t]


def base_of(t):
    path = ()
    while t[0] == 'fld': t, path = t[1], (t[2],) + path
    return t, path


def varying(x):
    """the loop-varying places a term reads"""
    out, st = [], [x]
    while st:
        t = st.pop()
        if not isinstance(t, tuple): continue
        if t and t[0] in ('fld', 'phi') and base_of(t)[0][0] == 'phi':
            if t not in out: out.append(t)
            continue
        st.extend(y for y in t if isinstance(y, tuple))
    return out


def travel(cx, r, s, pos, N, P0, k, fn, keep):
    if N is None:
        cx.undecided.append(('segments', fn['q'])); return
    m = {N: SYM('N')}
    for i, q in ((2, 'z'), (3, 'e')):
        x = norm.subst(r.expand(pos[i], keep), m)
        part = div(sub(fld(arg(0), q), fld(P0, q)), SYM('N'))
        ph = [t for t in varying(x) if t != k]
        msg = 'each segment takes an equal part of the rise and of the extrusion'
        if not ph and not mentions(x, k) and any(varying(r.expand(p2[i], keep)) for _, p2, _, _ in r.loop_moves()):
            # one of the first rounds on its own: as many parts of the way as moves before it
            if any(equal(x, add(fld(P0, q), mul(C(c), part))) for c in (1, 2, 3)):
                cx.ob(True, 'part-' + q.upper(), fn, msg); continue
        if not ph:
            cx.same(x, add(fld(P0, q), mul(k, part)), 'part-' + q.upper(), fn, msg)
            continue
        if len(ph) != 1:
            cx.undecided.append(('part', show(x)[:200])); continue
        t = ph[0]
        b, path = base_of(t)
        es = {r.expand(fld(li.entry[b], *path)) for li in li_of(r, b[1]) if b in li.entry}
        for e in es: cx.same(e, fld(P0, q), 'part-start-' + q.upper(), fn, 'the segments start at the position before the arc')
        step = sub(x, t)
        if not any(equal(step, mul(f, part)) for f in r.scale): cx.same(step, part, 'part-' + q.upper(), fn, msg)
        else: cx.ob(True, 'part-' + q.upper(), fn, msg)
        now = norm.subst(r.expand(resolve(s, s.load(b[2], b[3] + path)), keep), m)
        cx.same(now, x, 'part-kept-' + q.upper(), fn, msg)
    for t, v in s.facts.items():
        if t[0] != 'op' or t[1] not in ('<', '==') or len(t) != 4 or len(r.scale) > 1: continue
        # the bound of the loop: counter + c < bound
        u, w = (t[2], t[3]) if v and t[1] == '<' else (t[3], t[2]) if t[1] == '<' else (None, None)
        if u is None or not mentions(u, k) or mentions(w, k): continue
        c = norm.subst(bare(u), {k: C(0)})
        if is_c(c) and equal(bare(u), add(k, c)):
            b = norm.subst(r.expand(w, keep), m)
            if not mentions(b, SYM('N')): continue
            b = sub(b, c)
            if not v: b = add(b, C(1))
            cx.same(b, SYM('N'), 'segments', fn, 'the loop writes all segments but the last')


def direction(cx, r, T, fn):
    """the total angle of the routine is negative for a clockwise arc and positive for any other"""
    if T is None:
        cx.undecided.append(('direction', fn['q'])); return
    P0 = sel(('init', r.R), 'position_')
    I, J = arg(1), arg(2)
    tx, ty = sub(fld(arg(0), 'x'), add(fld(P0, 'x'), I)), sub(fld(arg(0), 'y'), add(fld(P0, 'y'), J))
    res = []
    # a common factor (the part of the way the equal segments cover) does not matter
    for f in sorted(factors(r.expand(T)), key=tsize):
        A2 = set()
        spans = []
        bad, n = turns(cx, r, f, A2, False, spans)
        if A2:
            res.append((len(bad), bad, n, A2))
            break
    if not res:
        cx.undecided.append(('direction', show(r.expand(T))[:200])); return
    _, bad, n, A2 = min(res, key=lambda x: x[0])
    for a in A2:
        cx.same(a[2][0], sub(mul(neg(I), ty), mul(neg(J), tx)), 'angle-cross', fn, 'the angle is that from the start to the end as seen from the centre')
        cx.same(a[2][1], add(mul(neg(I), tx), mul(neg(J), ty)), 'angle-dot', fn, 'the angle is that from the start to the end as seen from the centre')
    for i in range(n - len(spans)): cx.ob(True, 'angle-span', fn, 'the angle turned through ends at the end point')
    for d in spans: cx.ob(False, 'angle-span', fn, 'the angle turned through ends at the end point', detail=d)
    for i in range(n - len(bad)): cx.ob(True, 'direction', fn, 'a clockwise arc is turned clockwise, any other counter-clockwise')
    whole, n2 = turns(cx, r, f, set(), True)
    for i in range(n2 - len(whole)): cx.ob(True, 'full-circle', fn, 'an arc that ends where it starts is a full turn')
    for d in whole: cx.ob(False, 'full-circle', fn, 'an arc that ends where it starts is a full turn', detail=d)
    for d in bad: cx.ob(False, 'direction', fn, 'a clockwise arc is turned clockwise, any other counter-clockwise', detail=d)
    cx.need(n, 1, 'directions of ' + fn['q'])


def settled(cx, t, at2, A, same):
    """t when the end point is the start: predicates of two equal coordinates are evaluated"""
    t = norm.subst(norm.subst(t, {x: A for x in at2}), same)
    for _ in range(6):
        ev = {}
        for x in sorted(set(subterms(t)), key=tsize):
            if x[0] == 'op' and x[1] == '-' and len(x) == 4 and x[2] == x[3]: ev[x] = C(0)
            elif x[0] == 'call':
                y = folded_call(cx, x)
                if y is not None: ev[x] = y
        if not ev: break
        t = norm.subst(t, ev)
    return resolve(State(mon=()), t)


def folded_call(cx, x):
    if re.search(r'(^|::)(f?abs[fl]?)$', x[1]) and len(x[2]) == 1 and is_c(x[2][0]): return C(abs(x[2][0][1]))
    g = [g for g in cx.p.funcs.values() if g['q'] == x[1] and g.get('b') and len(g['p']) == len(x[2])]
    if len(g) != 1 or not all(q['ty'].replace('const ', '') in ('float', 'double', 'int', 'bool') for q in g[0]['p']): return None
    memo = cx.__dict__.setdefault('folded', {})
    if x not in memo:
        try: outs = {retval(s, v) for o, s, v in Engine(cx.p).run(g[0], State(mon=None), args={q['n']: y for q, y in zip(g[0]['p'], x[2])}) if o == 'R' and not contradictory(s)}
        except AnalysisError: outs = ()
        y = outs.pop() if len(outs) == 1 else None
        memo[x] = y if y is not None and is_c(y) else None
    return memo[x]


def is_at2(t): return t[0] == 'call' and re.search(r'(^|::)atan2f?$', t[1])


def other_span(S, y):
    """an angle that does not end where the arc ends: not that from start to end, give or take full turns"""
    import random, math
    rnd = random.Random(2)
    for i in range(40):
        v = pit.Val(rnd)
        if not pit.satisfy(v, list(S.facts.items()), rnd): continue
        try: z, a = v.ev(y), v.ev(SYM('atan2'))
        except pit.Undef: continue
        k = (z - a) / (2 * math.pi)
        if abs(k - round(k)) > 1e-3: return 'e.g. %s for an end at %s' % (z, a)
    return None


def turns(cx, r, T, A2, whole=False, spans=None):
    spans = [] if spans is None else spans
    A = C(0) if whole else SYM('atan2')
    P0 = sel(('init', r.R), 'position_')
    same = {fld(arg(0), q): fld(P0, q) for q in 'xy'} if whole else {}
    bad, n = [], 0
    for isc in (bool(r.cw),):
        S0 = State(mon=())
        if not whole:
            S0.assume(lt(A, C(-3.1415930)), False)
            S0.assume(lt(C(3.1415930), A), False)
        work = [(S0, r.expand(T))]
        done = []
        while work:
            S, y = work.pop()
            j = next((t for t in subterms(y) if t[0] == 'join' and t in r.E.join_parts), None)
            if j is None or len(done) + len(work) > 200:
                done.append((S, y)); continue
            for facts, v in r.E.join_parts[j]:
                S1 = S.copy()
                ok = True
                for t, b in facts.items():
                    if t[0] == 'val': continue
                    t = r.expand(t)
                    at2 = {x for x in subterms(t) if is_at2(x)}
                    if whole: t = settled(cx, t, at2, A, same)
                    elif at2: t = norm.subst(t, {x: A for x in at2})
                    else: continue
                    ok = ok and S1.assume(t, b)
                if ok and not contradictory(S1): work.append((S1, norm.subst(y, {j: r.expand(v)})))
        for S2, y in done:
            at2 = {x for x in subterms(y) if is_at2(x)}
            A2 |= at2
            y = settled(cx, y, at2, A, same) if whole else norm.subst(y, {x: A for x in at2})
            for cs, z in split_cases(resolve(S2, y)):
                S = S2.copy()
                if not all(S.assume(c, b) for c, b in cs) or contradictory(S): continue
                n += 1
                if not whole and mentions(z, A):
                    w = other_span(S, z)
                    if w: spans.append('%s: angle %s: %s' % ('clockwise' if isc else 'counter-clockwise', show(z)[:200], w))
                if whole:
                    if any(t[0] == 'call' for c, b in list(cs) + [f for f in S.facts.items() if f[0][0] != 'val'] for t in subterms(c)):
                        cx.undecided.append(('full-circle', show(z)[:100], '; '.join(show(c)[:80] for c, b in cs))); continue
                    try: t0 = pit.Val(__import__('random').Random(1)).ev(z)
                    except pit.Undef: continue
                    if (t0 > -6.2 if isc else t0 < 6.2): bad.append('%s: angle %s for an end point that is the start' % ('clockwise' if isc else 'counter-clockwise', show(z)[:200]))
                    continue
                G = S.copy()
                if not G.assume(lt(C(0), z) if isc else lt(z, C(0)), True) or contradictory(G): continue
                w = wrong_turn(S, z, isc)
                if w: bad.append('%s: angle %s when %s: %s' % ('clockwise' if isc else 'counter-clockwise', show(z)[:200], '; '.join(('' if b else 'not ') + show(c) for c, b in cs)[:300], w))
                else: cx.undecided.append(('direction', show(z)[:200]))
    return bad, n


def wrong_turn(S, y, isc):
    import random
    rnd = random.Random(1)
    for i in range(60):
        v = pit.Val(rnd)
        if not pit.satisfy(v, list(S.facts.items()), rnd): continue
        try: z = v.ev(y)
        except pit.Undef: continue
        if (z > 1e-6) if isc else (z < -1e-6): return 'e.g. angle %s' % z
    return None


@rule('P16', DOM + "Each routine a firmware version can select is run abstractly inside interpolate_arc (states joined with gated values, loops by fixpoint); on every way out after a move the last move's coordinates must be the commanded end values, and every move of the loop must advance Z and E by an equal part of the way (entry value, step and number of passes of the loop).")
def p16(cx):
    n = 0
    for r in runs_of(cx):
        n += 1
        final_move(cx, r)
        steps(cx, r, 'P16')
    cx.need(n, 5, 'interpolation routines')


@rule('P36', DOM + "For each routine, the moves of the loop are compared with the rotation of the start around start + (I, J): exactly where sine and cosine are computed, and as a linear map (equal diagonal, opposite off-diagonal terms, positive sense) in the approximating branch; the sign of the total angle is decided for both directions by linear arithmetic over its cases with the arc tangent bounded.")
def p36(cx):
    n = 0
    for r in runs_of(cx, (0, 1)):
        n += 1
        steps(cx, r, 'P36')
    cx.need(n, 5, 'interpolation routines')


# ------------------------------------------------------------------ P15: the line loop
STREAM = ('ghost', 'stream')
LINE, CMD = ('init', ('ghost', 'line')), ('init', ('ghost', 'cmd'))
GPOS = 'gcode_position::get_'
AIP = 'arc_interpolation::process'


class Line:
    """what was done with the line at hand"""
    __slots__ = ('st', 'out', 'upd', 'pos', 'arc')

    def __init__(self, st='none', out=(), upd=False, pos=None, arc=None): self.st, self.out, self.upd, self.pos, self.arc = st, out, upd, pos, arc
    def tup(self): return (self.st, self.out, self.upd, self.pos, self.arc)
    def __eq__(self, o): return isinstance(o, Line) and self.tup() == o.tup()
    def __hash__(self): return hash(self.tup())
    def __repr__(self): return repr(self.tup())

    def but(self, **k):
        d = dict(zip(self.__slots__, self.tup())); d.update(k)
        return Line(**d)


def is_of(t, name):
    """the position behind the named accessor"""
    return {x for x in subterms(t) if x[0] == 'call' and x[1] == GPOS + name}


class LineLoop:
    def __init__(self, cx):
        from .files import inlines
        p = cx.p
        self.cx, self.fn = cx, p.find(AIP)
        self.R = ('this', 'arc_interpolation')
        self.seen, self.notes = set(), {}
        pure = {'gcode_position::get_current_position_ptr', 'gcode_position::get_previous_position_ptr', 'position::get_gcode_x', 'position::get_gcode_y', 'position::get_gcode_z',
                'position::get_current_extruder', 'extruder::get_offset_e', 'utilities::hypot', 'firmware::get_gcode_header_comment', 'firmware::get_num_arc_segments_generated'}
        self.E = Engine(p, gate=True, on_call=self.call, pure=pure, skip=logskip(p), split_loops=True)
        self.outs = self.E.run(self.fn, State(mon=Line()), args={})
        cx.funcs.add(self.fn['q'])
        for k, s, v in self.outs:
            if not contradictory(s): self.done(s, None)
        self.infos = infos(self.E)

    def note(self, ok, code, msg, node=None, det=None):
        k = (code, node.get('l') if node else 0, msg)
        c = self.notes.get(k)
        if c is None or c[0] and not ok: self.notes[k] = (bool(ok), node, det)

    def emit(self):
        for (code, l, msg), (ok, node, det) in self.notes.items(): self.cx.ob(ok, code, self.fn, msg, node, det)

    def call(self, E, s, ci):
        q, nm, m, n = ci.q or '', ci.name, s.mon, ci.node
        if nm == 'getline' and len(ci.lvs) >= 2 and isinstance(ci.lvs[1], LV):
            self.seen.add('read')
            self.done(s, n)
            t = s.copy()
            t.store(ci.lvs[1].root, ci.lvs[1].path, LINE)
            t.mon = Line('read')
            s.mon = Line('end')
            s.env[STREAM], t.env[STREAM] = C(0), C(1)
            return [(t, LV(STREAM, ())), (s, LV(STREAM, ()))]
        if isinstance(ci.this, LV) and ci.this.root == STREAM:
            if nm in ('operator bool', 'good'): return [(s, s.env[STREAM])]
            if nm in ('operator!', 'fail', 'eof'): return [(s, mk_not(s.env[STREAM]))]
        if q == 'gcode_parser::try_parse_gcode' and len(ci.lvs) >= 2 and isinstance(ci.lvs[1], LV):
            self.seen.add('parse')
            a = ci.args[0]
            while a is not None and a[0] == 'call' and a[1].rsplit('::', 1)[-1] in ('c_str', 'data'): a = a[2][0]
            self.note(a == LINE and m.st == 'read', 'parsed', 'the line just read is parsed', n, show(a))
            l = ci.lvs[1]
            old = s.load(l.root, l.path + ('command',))
            self.note(old == C('') or not any(x == CMD or x[0] == 'phi' for x in subterms(old)), 'command-cleared', 'no command of an earlier line is left where the line is parsed', n, show(old))
            s.store(l.root, l.path, CMD)
            s.mon = m.but(st='parsed')
            return [(s, ('call', q, (LINE,)))]
        if q == 'gcode_position::update':
            self.seen.add('update')
            self.note(ci.args[0] == CMD and m.st == 'parsed' and not m.upd, 'tracked', 'the position follows the command of each line once', n, show(ci.args[0]))
            s.mon = m.but(upd=True)
            return [(s, C(0))]
        if q in (GPOS + 'current_position_ptr', GPOS + 'previous_position_ptr'):
            self.note(m.upd, 'tracked-first', 'positions are read after the line was tracked', n)
            return None
        if q == 'firmware::set_current_position':
            l = ci.lvs[0]
            t = s.load(l.root, l.path) if isinstance(l, LV) else ci.args[0]
            s.mon = m.but(pos=tuple(s.resolve(fld(t, f)) if hasattr(s, 'resolve') else fld(t, f) for f in 'xyzef'))
            return [(s, C(0))]
        if q == 'firmware::set_current_state':
            l = ci.lvs[0]
            t = s.load(l.root, l.path) if isinstance(l, LV) else ci.args[0]
            for f in ('is_extruder_relative', 'is_relative'):
                self.of(fld(t, f), 'previous_position_ptr', lambda P, f=f: fld(P, f), 'state-' + f, "the firmware's %s is that before the arc" % f, n)
            s.mon = m.but(arc=('state',))
            return [(s, C(0))]
        if q == 'firmware::interpolate_arc':
            self.seen.add('arc')
            return self.arc(E, s, ci)
        if nm == 'operator<<' and isinstance(ci.this, LV) and ci.this.root == self.R and ci.this.path[:1] == ('output_file_',):
            self.seen.add('write')
            a = next((x for x in ci.args[::-1]), None)
            if is_c(a) and a[1] == 10: a = C('\n')      # the character
            if m.st != 'none': s.mon = m.but(out=m.out + (a,))
            return None
        return None

    def of(self, t, which, want, code, msg, node):
        """t is want(the position behind the accessor)"""
        ptr = {x for x in subterms(t) if x[0] == 'call' and x[1] in (GPOS + 'current_position_ptr', GPOS + 'previous_position_ptr')}
        ok = any(equal(t, want(('init', ('deref', x)))) for x in ptr if x[1] == GPOS + which)
        if not ok and not ptr and not is_c(t) and t[0] not in ('init', 'fld'):
            self.cx.undecided.append((code, show(t)[:200])); return
        self.note(ok, code, msg, node, show(t)[:200])

    def arc(self, E, s, ci):
        m, n = s.mon, ci.node
        ext = lambda P: call('extruder::get_offset_e', call('position::get_current_extruder', P))
        want = dict(x=lambda P: call('position::get_gcode_x', P), y=lambda P: call('position::get_gcode_y', P), z=lambda P: call('position::get_gcode_z', P), e=ext, f=lambda P: fld(P, 'f'))
        self.note(m.pos is not None, 'start-set', 'the position before the arc is handed to the firmware', n)
        self.note(m.arc is not None, 'state-set', 'the modes before the arc are handed to the firmware', n)
        l = ci.lvs[0]
        t = s.load(l.root, l.path) if isinstance(l, LV) else ci.args[0]
        for i, f in enumerate('xyzef'):
            if m.pos is not None: self.of(resolve(s, m.pos[i]), 'previous_position_ptr', want[f], 'start-' + f, "the arc starts at the %s before it" % f.upper(), n)
            self.of(resolve(s, fld(t, f)), 'current_position_ptr', want[f], 'target-' + f, "the arc ends at its own %s" % f.upper(), n)
        self.note(entails(s.facts and norm_facts(s), is_arc()), 'arc-command', 'only G2 and G3 are interpolated', n)
        cw = truth(resolve(s, ci.args[4]), 'bool')
        F = norm_facts(s)
        g2 = eq(fld(CMD, 'command'), C('G2'))
        self.note(entails(F, OR(AND(cw, g2), AND(NOT(cw), NOT(g2)))), 'clockwise', 'G2 is clockwise, G3 is not', n, show(cw)[:200])
        res = ('init', ('ghost', 'moves'))
        self.params = getattr(self, 'params', []) + [(s.copy(), ci.args[1:4], n)]
        s.mon = m.but(arc=('done',))
        return [(s, res)]

    def values(self):
        """I, J and R are those of the command: the loop over its parameters keeps the value of the one so named"""
        n = 0
        todo = {}
        for s, args, node in self.params:
            for nm, t in zip('IJR', args): todo.setdefault((nm, resolve(s, t)), (s, node))
        for (nm, t), (s, node) in todo.items():
            if nm == 'R' and t[0] == 'call' and t[1].endswith('hypot'):
                ij = {(resolve(q, a[0]), resolve(q, a[1])) for q, a, _ in self.params}
                self.note(tuple(t[2]) in ij or tuple(reversed(t[2])) in ij, 'radius', 'without R the radius is the length of (I, J)', node, show(t))
                continue
            if t[0] != 'phi':
                self.cx.undecided.append(('parameter-' + nm, show(t)[:200])); continue
            for li in self.infos:
                if li.lid != t[1] or t not in li.phis.values(): continue
                n += 1
                es = {r.load(t[2], t[3]) for r in li.rec['entry']}
                self.note(es == {C(0)}, 'parameter-fresh', '%s is zero unless the command has one' % nm, node, '; '.join(map(show, es))[:200])
                for b in li.backs:
                    if contradictory(b): continue
                    v = resolve(b, b.load(t[2], t[3]))
                    F = norm_facts(b)
                    names = {x for q in b.facts for x in subterms(q) if x[0] == 'fld' and x[2] == 'name'}
                    mine = [x for x in names if entails(F, eq(x, C(nm)))]
                    if v == t or v in li.phis.values():
                        if mine: self.note(False, 'parameter-taken', 'the value of the parameter %s is used' % nm, node, 'kept: %s' % show(v))
                        elif not any(entails(F, NOT(eq(x, C(nm)))) or any(entails(F, eq(x, C(z))) for z in 'IJRXYZEF' if z != nm) for x in names): self.note(not entails(F, is_arc()) or not names, 'parameter-taken', 'the value of the parameter %s is used' % nm, node, 'a pass that does not look for it')
                    elif v[0] == 'fld' and v[2] == 'double_value':
                        self.note(any(v[1] == x[1] for x in mine), 'parameter-taken', 'the value of the parameter %s is used' % nm, node, '%s when %s' % (show(v), '; '.join(('' if k else 'not ') + show(q) for q, k in b.facts.items() if q[0] != 'val')[:300]))
                        ix = [x for x in subterms(v) if x[0] == 'phi' and x[1] == li.lid]
                        for x in ix:
                            if x in li.entry and li.delta.get(x) is not None: self.note(li.entry[x] == C(0) and li.delta[x] == 1, 'parameters-all', 'every parameter is looked at', node)
                    else: self.cx.undecided.append(('parameter-' + nm, show(v)[:200]))
        self.emit()
        self.cx.need(n, 2, 'parameter values')

    def done(self, s, node):
        """the next line is read (or there is none)"""
        m = s.mon
        if m.st in ('none', 'end'): return
        if contradictory(s): return
        F = norm_facts(s)
        txt = [b for a in m.out for b in flat(resolve(s, a))]
        words = []
        for a in txt:
            if is_c(a) and words and is_c(words[-1]): words[-1] = C(words[-1][1] + a[1])
            elif a != C(''): words.append(a)
        MV = ('init', ('ghost', 'moves'))
        arc, plain = entails(F, is_arc()), entails(F, NOT(is_arc()))
        d = ' '.join(show(w) for w in words)[:200]
        if m.arc == ('done',):
            full = words == [MV, C('\n')]
            none = emptiness(s, MV)
            if full: self.note(True, 'moves-written', 'the moves of an arc are written in its place', node)
            else: self.note(words == [] and none is True, 'moves-written', 'the moves of an arc are written in its place (nothing only if there are none)', node, d)
        else:
            self.note(plain, 'converted', 'every G2 and G3 is interpolated', node)
            self.note(words == [LINE, C('\n')], 'copied', 'every other line is written unchanged', node, d)
        self.note(m.upd, 'tracked', 'the position follows the command of each line once', node)


def is_arc(): return OR(eq(fld(CMD, 'command'), C('G2')), eq(fld(CMD, 'command'), C('G3')))
def norm_facts(s):
    F = norm.Facts(s.facts)
    F.add(norm.bnot(norm.B(AND(eq(fld(CMD, 'command'), C('G2')), eq(fld(CMD, 'command'), C('G3'))))))
    return F


@rule('P15', DOM + "Typestate of one line (read, parsed, tracked, written) over every path through the loop of arc_interpolation::process: G2/G3 lines reach the interpolation with the previous position and modes, their own target, I, J, R and direction, and leave the moves in their place; any other line leaves exactly itself and a line end.")
def p15(cx):
    w = LineLoop(cx)
    for k in ('read', 'parse', 'update', 'arc', 'write'): cx.need(int(k in w.seen), 1, k + ' events of the line loop')
    w.values()
