"""P34: the temporary file lies beside the source under a fresh name"""
from math import log2
from ._lib import *
from sa import loops

TEMP = 'utilities::get_temp_file_path_for_file'
SPLIT, DIR, EXISTS, NAME = 'utilities::splitpath', 'utilities::get_file_path', 'utilities::does_file_exist', 'utilities::create_uuid'
FRESH = ('std::random_device::operator()', 'mkstemp', 'tmpfile', 'getrandom', 'std::filesystem::unique_path', 'uuid_generate')
SEEDED = ('rand', 'random', 'clock', 'time')            # the same in every process, or the same within a clock tick
MINBITS = 64


def flat(t):
    if t[0] == 'cat':
        for x in t[1:]: yield from flat(x)
    elif t[0] == 'call' and t[1] == 'std::string::ctor' and len(t[2]) == 1: yield from flat(t[2][0])
    else: yield t


def sources(p, t):
    """nondeterministic library calls a term is computed from, followed into opaque project functions"""
    out = set()
    for x in subterms(t):
        if x[0] in ('call', 'out', 'mut'):
            n = str(x[1])
            out.add(n)
            for f in p.funcs.values():
                if f['q'] == n and f.get('b'): out |= library(p, f)
    return out


def library(p, f, seen=None):
    seen = set() if seen is None else seen
    if f['q'] in seen: return set()
    seen.add(f['q'])
    out = set()
    for c in calls([f['b'], f.get('inits') or []]):
        q = c.get('q') or c.get('f') or ''
        out.add(q)
        for g in p.funcs.values():
            if g['q'] == q and g.get('b'): out |= library(p, g, seen)
    return out


def is_fresh(qs): return any(q == f or q.startswith('std::random_device') for q in qs for f in FRESH)


@rule('P34', DOM + "The name returned is split into its parts: directory of the source, fresh random part, suffix; the existence test must have failed for this very name.")
def p34(cx):
    p = cx.p
    fn = p.find(TEMP, optional=True)
    if fn is None: cx.undecided.append(('P34', 'no temporary name function', '')); return
    opaque = {q for q in (SPLIT, DIR, EXISTS, NAME) if p.find(q, optional=True)}

    def on_call(E, s, ci):
        if ci.q in opaque and ci.q == NAME: return [(s, ('call', ci.q, (C(ci.node.get('l')), C(E.nid(ci.node)))))]
        return None

    E = Engine(p, nomerge=True, on_call=on_call, inline_if=lambda g: g['q'] not in opaque)
    outs = E.run(fn, State(mon=()), args={q['n']: (arg(i) if not q['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, q in enumerate(fn['p'])})
    cx.funcs.add(fn['q'])
    src = ('init', ('param', '#0'))
    n = 0
    for k, s, v in outs:
        if k != 'R' or v is None: continue
        v = retval(s, v)
        if is_c(v) and not v[1]: continue
        if is_c(v) is False and s.holds(v) is False: continue
        n += 1
        t = s.load(('param', '#1'), ())
        parts = list(flat(t))
        if any(x[0] == 'phi' for x in parts) : cx.undecided.append(('P34', 'loop-varying name', show(t)[:200])); continue
        dirs = [x for x in parts if mentions(x, src)]
        cx.ob(bool(dirs) and parts[0] is dirs[0], 'directory', fn, "the temporary file lies in the directory of the source", detail="the name is " + show(t)[:160])
        for d in dirs:
            if d[0] == 'out' and d[1] == DIR and len(d[3]) == 2:
                cx.ob(d[3][1] in (C(''),) or not is_c(d[3][1]) and d[3][1][0] == 'call' and 'ctor' in d[3][1][1] and not d[3][1][2], 'stale', fn, "the directory is built from an empty string", detail="appended to " + show(d[3][1])[:100])
        used = [sources(p, x) for x in parts if x not in dirs]
        fresh = any(is_fresh(u) for u in used)
        cx.ob(fresh, 'fresh', fn, "the name has a part that differs between processes and calls",
              detail="its parts: %s; non-repeating sources: none (%s)" % (', '.join(show(x)[:40] for x in parts), ', '.join(sorted(q for u in used for q in u if q in SEEDED)) or 'no random source'))
        tested = [val for f, val in s.facts.items() if f == ('call', EXISTS, (t,))] if EXISTS in opaque else []
        others = [f for f in s.facts if f[0] == 'call' and f[1] == EXISTS and f[2] != (t,)]
        direct = [f for f, val in s.facts.items() if any(x[0] == 'call' and x[1] in ('fopen', 'access', 'stat', 'std::filesystem::exists') and mentions(x, t) for x in subterms(f))]
        cx.ob(tested == [False] or bool(direct), 'exists', fn, "a name is only returned when no file of that name exists",
              detail="the name returned was found to exist" if tested == [True] else "another name was tested" if others else "no existence test of the returned name")
        for x in parts:
            if is_c(x) and isinstance(x[1], str): cx.ob('/' not in x[1] and '\\' not in x[1], 'separator', fn, "the constant parts of the name stay in the directory", detail=repr(x[1]))
    cx.need(n, 1, 'returned names')
    if NAME in opaque: entropy(cx, p.find(NAME))
    if EXISTS in opaque: exists(cx, p.find(EXISTS))
    sep = split(cx, p.find(SPLIT)) if SPLIT in opaque else None
    if DIR in opaque: directory(cx, p.find(DIR), sep)
    callers(cx, fn)



def bits(t):
    """log2 of the number of equally likely values of one appended part that are drawn afresh"""
    tot = 0.0
    def go(x):
        nonlocal tot
        if x[0] == 'op' and x[1] == '%' and any(y[0] == 'call' and str(y[1]).startswith('std::random_device') for y in subterms(x[2])) and is_c(x[3]):
            tot += log2(max(1, x[3][1]))
            return
        if x[0] == 'call' and str(x[1]).startswith('std::random_device::operator'):
            tot += 5
            return
        for y in x:
            if isinstance(y, tuple): go(y)
    go(t)
    return tot


def entropy(cx, fn):
    E = Engine(cx.p, nomerge=True)
    outs = E.run(fn, State(mon=()), args={})
    cx.funcs.add(fn['q'])
    li = {x.lid: x for x in loops.infos(E)}
    for k, s, v in outs:
        if k != 'R': continue
        v = retval(s, v)
        total, known = 0.0, True
        for part in flat(v):
            if part[0] == 'phi':
                l = li.get(part[1])
                n = l and l.count(s)
                if n is None or not is_c(n): known = False; continue
                per = []
                for b in l.backs:
                    nv = list(flat(b.load(part[2], part[3])))
                    if nv[0] != part: known = False; continue
                    per.append(sum(bits(x) for x in nv[1:]))
                if l.entry.get(part) is None: known = False
                elif per: total += n[1] * min(per)
            else: total += bits(part)
        if not known: cx.undecided.append(('P34', 'random length of the name', show(v)[:160])); continue
        qs = library(cx.p, fn)
        if not is_fresh(qs) : continue           # reported where the name is built
        if total == 0 and any(q.startswith('std::') and 'random' in q and 'random_device' not in q or 'distribution' in q or 'engine' in q for q in qs):
            cx.undecided.append(('P34', 'seeded engine', '')); continue
        cx.ob(total >= MINBITS, 'random', fn, "the name carries at least %d random bits" % MINBITS, detail="%.0f bits" % total)


def exists(cx, fn):
    E, outs = paths(cx, fn)
    for k, s, v in outs:
        if k != 'R': continue
        v = retval(s, v)
        op_ = [x for f in list(s.facts) + [v] for x in subterms(f) if x[0] == 'call' and x[1] in ('fopen',)]
        if not op_: cx.undecided.append(('P34', 'existence test', show(v)[:160])); continue
        x = op_[0]
        cx.ob(mentions(x[2][0], arg(0)), 'tested', fn, "the file asked for is the file tested", detail=show(x)[:120])
        m = x[2][1]
        if is_c(m) and isinstance(m[1], str): cx.ob(m[1].startswith('r') and '+' not in m[1], 'mode', fn, "the existence test does not create or change the file", detail="opened with mode %r" % m[1])
        null = mk_eq(x, C(None))
        h = s.holds(null)
        val = True if is_c(v) and v[1] else False if is_c(v) else s.holds(v)
        if h is None or val is None: continue
        cx.ob(val == (not h), 'answer', fn, "a file that can be opened exists", detail="returns %s when the file was %sopened" % (val, 'not ' if h else ''))


def split(cx, fn):
    E, outs = paths(cx, fn)
    sep = None
    ls = [l for l in loops.infos(E) if l.backs]
    if len(ls) != 1: cx.undecided.append(('P34', 'splitting not recognised', '')); return None
    l = ls[0]
    vec = [t for t in l.entry if 'vector' in str(l.entry[t])[:80]]
    ptrs = [t for t in l.entry if t not in vec]
    if len(vec) != 1 or len(ptrs) != 2: cx.undecided.append(('P34', 'splitting not recognised', '')); return None
    vec = vec[0]
    cur = [t for t in ptrs if all(b.load(t[2], t[3]) == ('padd', t, C(1)) for b in l.backs)]
    if len(cur) != 1: cx.undecided.append(('P34', 'splitting not recognised', '')); return None
    cur = cur[0]; start = next(t for t in ptrs if t != cur)
    ch = ('init', ('deref', cur))
    for b in l.backs:
        at = [(f, v) for f, v in b.facts.items() if f[0] == 'op' and f[1] == '==' and ch in f[2:] and C(0) not in f[2:]]
        hit = [f for f, v in at if v]
        r, st = b.load(vec[2], vec[3]), b.load(start[2], start[3])
        if hit:
            sep = next(x for x in hit[0][2:] if x != ch)
            cx.ob(r[0] == 'mut' and 'push_back' in r[1] and r[2] == vec, 'part', fn, "each separator ends one part", detail="result becomes " + show(r)[:100])
            cx.ob(st == ('padd', cur, C(1)), 'part', fn, "the next part starts behind the separator", detail="start becomes " + show(st)[:80])
            if r[0] == 'mut' and r[3] and r[3][0][0] == 'call' and len(r[3][0][2]) == 2: cx.ob(r[3][0][2] == (start, cur), 'part', fn, "a part runs from its start to the separator", detail=show(r[3][0])[:120])
        else:
            cx.ob(r == vec and st == start, 'part', fn, "other characters do not split", detail="result becomes %s, start %s" % (show(r)[:60], show(st)[:60]))
    for k, s, v in outs:
        if k != 'R': continue
        v = retval(s, v)
        cx.ob(v[0] == 'mut' and 'push_back' in v[1] and v[2] == vec and mentions(v[3][0], start), 'part', fn, "the rest behind the last separator is the last part", detail=show(v)[:120])
    return sep


def directory(cx, fn, sep):
    E = Engine(cx.p, nomerge=True, inline_if=lambda g: g['q'] != SPLIT)
    outs = E.run(fn, State(mon=()), args={q['n']: (arg(i) if not q['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, q in enumerate(fn['p'])})
    cx.funcs.add(fn['q'])
    parts = ('call', SPLIT, (arg(0),))
    for k, s, v in outs:
        if k != 'R' or is_c(retval(s, v)) and not retval(s, v)[1]: continue
        t = s.load(('param', '#1'), ())
        ph = [x for x in flat(t) if x[0] == 'phi']
        ls = [l for l in loops.infos(E) if ph and l.lid == ph[0][1]]
        if len(ph) != 1 or not ls: cx.undecided.append(('P34', 'directory', show(t)[:120])); continue
        l, ph = ls[0], ph[0]
        n = l.count(s)
        want = None
        if n is not None:
            size = next((x for x in subterms(n) if x[0] == 'call' and 'size' in x[1] and parts in x[2]), None)
            if size is not None:
                d = loops.const_delta(n, size)
                if d is not None: cx.ob(d == -1, 'all', fn, "the directory has every part of the path but the last", detail="%s parts are taken" % show(n)[:80])
        for b in l.backs:
            nv = list(flat(b.load(ph[2], ph[3])))
            if nv[0] != ph: cx.undecided.append(('P34', 'directory step', '')); continue
            el = [x for x in nv[1:] if mentions(x, parts)]
            cs = [x for x in nv[1:] if is_c(x)]
            cx.ob(len(el) == 1 and nv[1] == el[0], 'step', fn, "each part is appended once", detail=', '.join(show(x)[:50] for x in nv[1:]))
            chars = ''.join(chr(x[1]) if isinstance(x[1], int) else str(x[1]) for x in cs)
            if sep is not None and is_c(sep): cx.ob(chars == (chr(sep[1]) if isinstance(sep[1], int) else sep[1]), 'step', fn, "each part is followed by the separator it was split at", detail="followed by %r" % chars)
            if el and el[0][0] == 'fld' and isinstance(el[0][2], tuple):
                ix = el[0][2][1]
                if ix in l.entry: cx.ob(l.entry[ix] == C(0) and l.delta.get(ix) == 1, 'step', fn, "the parts are taken in order from the first", detail="from %s by %s" % (show(l.entry[ix])[:30], l.delta.get(ix)))
        e = l.entry.get(ph)
        if e is not None: cx.ob(e == ('init', ('param', '#1')) or e == C(''), 'step', fn, "the directory starts from the string given", detail=show(e)[:60])


def callers(cx, fn):
    """the temporary name is derived from the source path"""
    n = 0
    for f in cx.p.funcs.values():
        if not f.get('b'): continue
        for c in calls(f['b']):
            if c.get('q') != fn['q'] and c.get('f') != fn['q']: continue
            n += 1
            a, b = c['a'][0], c['a'][1]
            na, nb = leaf(a), leaf(b)
            cx.ob(not (na and na == nb), 'caller', f, "source and temporary name are different strings", node=c, detail="both are " + str(na))
    cx.counts['callers'] = n


def leaf(e):
    while e.get('e') and e.get('k') in ('cast', 'paren', 'icast', 'tmp', 'mat'): e = e['e']
    return e.get('n') if e.get('k') == 'ref' else e.get('f') if e.get('k') == 'mem' else None
