"""P27-P30, P32, P34: copies, initialisation, ownership, containers, buffers, temporary names"""
import re
from ._lib import *
from .position import bare, const_of, mem_name, from_zero_up
from .containers import transfers
from sa import loops
from sa.flow import Flow


def strip_ty(t): return re.sub(r'\bconst\b|&', '', t).strip()


def record_fields(p, cls):
    """(class, field) of a record and its bases"""
    r = p.records.get(cls)
    if r is None: return []
    out = []
    for b in r.get('bases', []): out += record_fields(p, strip_ty(b if isinstance(b, str) else b.get('ty', '')))
    return out + [(cls, f) for f in r['f']]


def is_ptr(ty): return ty.rstrip().endswith('*')


def copies(p):
    """hand-written copy constructors and copy assignments with a body"""
    for f in p.funcs.values():
        c = f.get('cls')
        if not c or f.get('impl') or not f.get('b') or len(f['p']) != 1: continue
        n = f['q'].rsplit('::', 1)[-1]
        if strip_ty(f['p'][0]['ty']) != c: continue
        if f.get('ctor') or n == 'operator=': yield f, 'constructor' if f.get('ctor') else 'assignment'


def used(p, f):
    """some expression of the program may call f"""
    for g in p.funcs.values():
        if g is f: continue
        for x in walk([g.get('b') or [], g.get('inits') or []]):
            if x.get('fid') == f['fid']: return True
    return False


@rule('P27', DOM + "Every hand-written copy constructor and copy assignment is interpreted on a symbolic source object; every member of the record (with its bases) of the result is compared with the source's, and owned arrays must be new storage filled element by element. Compiler-generated copies are complete by the language.")
def p27(cx):
    p = cx.p
    n = 0
    for f, kind in copies(p):
        cls = f['cls']
        if f.get('acc') == 2 and not used(p, f):
            cx.sample("%s is private and never called" % f['q']); continue
        n += 1
        one_copy(cx, f, kind, cls)
    n += transfers(cx)
    cx.need(n, 3, 'hand-written copies')


def one_copy(cx, f, kind, cls):
    p = cx.p
    SRC = ('param', '#0')
    log = []

    def on(E, s, ci):
        if ci.q.startswith('array_list<') or ci.q.startswith('circular_buffer<'):
            m = ci.name
            if isinstance(ci.this, LV) and ci.this.root != SRC:
                if m == 'copy':
                    a = ci.args[0] if ci.args else None
                    s.store(ci.this.root, ci.this.path, a); return [(s, None)]
                if m in ('clear', 'resize'): return [(s, None)]
            return None
        return None
    E = Engine(p, nomerge=True, on_call=on, skip=logskip(p))
    a = {f['p'][0]['n']: LV(SRC, ())}
    try: outs = E.run(f, State(mon=None), args=a)
    except AnalysisError as e:
        E = Engine(p, on_call=on, skip=logskip(p), disj=100)
        outs = E.run(f, State(mon=None), args=a)
    cx.funcs.add(f['q'])
    th = ('this', cls)
    self_ = None
    cnt = 0
    for k, s, v in outs:
        if k not in ('R', 'N') or contradictory(s): continue
        if any(t[0] == 'op' and t[1] == '==' and ('init' in str(t)) and b and set(map(str, t[2:])) >= {"('addr', ('param', '#0'), ())"} for t, b in facts_of(s)): continue     # self-assignment
        cnt += 1
        for owner, fd in record_fields(p, cls):
            w = fd['n']
            found, want = s.load(th, (w,)), fld(('init', SRC), w)
            if is_ptr(fd['ty']):
                owned_array(cx, E, f, kind, s, w, found, want)
                continue
            lc = lifetime_constant(p, owner, w)
            if found == want or lc is not None and found in (lc, fld(('init', th), w)): cx.ob(True, 'member', f, "the copy %s transfers %s" % (kind, w)); continue
            if found[0] == 'uninit' or found == ('init', th) or found == fld(('init', th), w):
                # left alone: fine only where the path knows the two are equal already
                if entails(s, eq(found, want)): cx.ob(True, 'member', f, "the copy %s transfers %s" % (kind, w)); continue
                cx.ob(False, 'member', f, "the copy %s transfers %s" % (kind, w), detail="%s is not set from the source" % w); continue
            if entails(s, eq(found, want)): cx.ob(True, 'member', f, "the copy %s transfers %s" % (kind, w)); continue
            cx.same(found, want, 'member', f, "the copy %s transfers %s" % (kind, w), facts=s.facts)
    if not cnt: cx.undecided.append(('member', cx.at(f), 'no path', ''))


def lifetime_constant(p, cls, w):
    """the constant every living object holds in w: outside destructors nothing but that constant is ever stored"""
    vals = set()
    for f in p.funcs.values():
        if not f.get('b') or f['q'].rsplit('::', 1)[-1].startswith('~'): continue
        for x in walk([f['b'], f.get('inits') or []]):
            if x.get('k') == 'un' and x.get('op') in ('&', '++', '--') and any(y.get('k') == 'mem' and y.get('f') == w for y in walk(x)): return None
            if x.get('k') == 'asg' and bare(x['a']).get('k') == 'mem' and bare(x['a']).get('f') == w: vals.add(const_of(bare(x['b'])))
            if x.get('k') == 'asg' and x.get('op') not in ('=', None) and bare(x['a']).get('f') == w: return None
        for i in f.get('inits') or []:
            if i.get('m') == w and f.get('cls') == cls: vals.add(const_of(bare(i['e'])) if i.get('e') else None)
    return C(vals.pop()) if len(vals) == 1 and None not in vals else None


def owned_array(cx, E, f, kind, s, w, found, want):
    """a pointer member: never the source's pointer where the class owns what it points to; every element is transferred"""
    if owns(cx.p, f['cls'], w):
        cx.ob(found != want, 'owned', f, "the copy %s does not share the storage of %s" % (kind, w), detail="%s is the source's pointer" % w)
        els = stores_to(E, s, found, want)
        if els == 'unknown': cx.undecided.append(('elements', cx.at(f), w, show(found)[:100])); return
        cx.ob(els is None, 'elements', f, "the copy %s transfers every element of %s" % (kind, w), detail=els)
    elif found != want:
        cx.same(found, want, 'member', f, "the copy %s transfers %s" % (kind, w), facts=s.facts)


def owns(p, cls, w):
    """the class allocates or deletes what member w points to"""
    for f in p.funcs.values():
        if f.get('cls') != cls or not f.get('b'): continue
        for x in walk([f['b'], f.get('inits') or []]):
            if x.get('k') == 'del' and any(y.get('k') == 'mem' and y.get('f') == w for y in walk(x['e'])): return True
            if x.get('k') == 'asg' and x['a'].get('k') == 'mem' and x['a'].get('f') == w and bare(x['b']).get('k') == 'new': return True
    return False


def stores_to(E, s, dst, src):
    """elements 0 .. n-1 of src were stored to dst in a loop over all of them: None, a complaint, or 'unknown'"""
    recs = []
    for li in loops.infos(E):
        for h, backs, exits in li.rec['iters']:
            for b in backs:
                for r, v in b.env.items():
                    if v[0] != 'rec': continue
                    for path, x in overrides(v):
                        if path and isinstance(path[-1], tuple) and path[-1][0] == '[]' or any(isinstance(c, tuple) and c[0] == '[]' for c in path):
                            i = next(c[1] for c in path if isinstance(c, tuple) and c[0] == '[]')
                            if not any(y[0] == 'phi' and y[1] == li.lid for t in [i] + list(index_terms(x)) for y in subterms(t)): continue
                            recs.append((li, b, r, path, i, x))
    want = last(src)
    hit = [(li, b, r, path, i, x) for li, b, r, path, i, x in recs if any(y[0] == 'deref' and last(y[1]) == want or y[0] == 'init' and isinstance(y[1], tuple) and y[1][0] == 'deref' and last(y[1][1]) == want for y in subterms(x))]
    if not hit: return 'unknown' if not recs else "no loop stores the source's elements"
    for li, b, r, path, i, x in hit:
        j = [c[1] for c in index_terms(x)]
        if j and not any(equal(i, y) for y in j): return "element %s is taken from %s" % (show(i), show(j[0]))
        if i[0] != 'phi': return 'unknown'
        e0 = li.entry.get(i)
        if e0 is None or li.delta.get(i) is None: return 'unknown'
        if e0 != C(0): return "the transfer starts at element %s" % show(e0)
        if li.delta[i] != 1: return "the transfer steps by %s" % li.delta[i]
        # guard: i < number of elements
        ok = None
        for t, v in facts_of(b):
            if t[0] == 'op' and t[1] == '<' and v and t[2] == i: ok = t[3]
            if t[0] == 'op' and t[1] == '<' and not v and t[3] == i: ok = ('le', t[2])
        if ok is None: return 'unknown'
        if ok[0] == 'le': return 'unknown' if 'num' not in str(ok) else "the transfer goes one past the last element"
        nm = last(ok)
        if not re.search('num|count|size', str(nm or ok)): return 'unknown'
        if ok[0] == 'op': return "the transfer stops at %s" % show(ok)
    return None


def index_terms(t):
    for x in subterms(t):
        if x[0] == 'fld' and isinstance(x[2], tuple) and x[2][0] == '[]': yield x[2]


def overrides(v, pre=()):
    if v[0] == 'rec':
        for k, y in v[2]: yield from overrides(y, pre + (k,))
    else: yield pre, v


def last(t):
    while isinstance(t, tuple) and t and t[0] == 'fld':
        if isinstance(t[2], str): return t[2]
        t = t[1]
    return None


# ------------------------------------------------------------------ P28
SC = ('int', 'unsigned', 'char', 'long', 'double', 'float', 'bool', 'short', 'uint', 'int8_t', 'uint8_t', 'uint16_t', 'int16_t', 'int32_t', 'uint32_t', 'size_t', 'int64_t', 'uint64_t')


def is_scalar(p, ty):
    t = ty.replace('const ', '').strip()
    return t.endswith('*') or t.split('[')[0].split(' ')[0] in SC or t.split('[')[0].strip() in p.enums


def scalar_members(p, c):
    return [f for f in p.records[c]['f'] if is_scalar(p, f['ty']) and 'i' not in f]


def covers_enum(p, s):
    """this path denies every value of some enumeration (a switch over all its constants fell through)"""
    den = {}
    for t, b in s.facts.items():
        if t[0] == 'op' and t[1] == '==' and not b:
            for x, c in ((t[2], t[3]), (t[3], t[2])):
                if is_c(c): den.setdefault(x, set()).add(c[1])
    sets = [set(e.values()) for e in p.enums.values() if len(e) > 1]
    return any(any(e <= d for e in sets) for d in den.values())


def unset(s, c, w, ty):
    """member w of the object under construction may hold no value"""
    th = ('this', c)
    x = s.load(th, (w,))
    u = lambda y: y == fld(('init', th), w) or y[0] == 'uninit' or y == ('init', th)
    if '[' in ty:
        n = re.search(r'\[(\d+)\]', ty)
        if u(x) and n: return True
        return False
    return any(u(y) for y in subterms(x))


def built(cx, f):
    """final states of a constructor"""
    a = {x['n']: LV(('param', '#%d' % i), ()) if x['ty'].rstrip().endswith('&') else arg(i) for i, x in enumerate(f['p'])}
    sizes = {}

    def on(E, s, ci):
        if ci.kind == 'new' and ci.args: sizes.setdefault(('heap', ci.frame.ctx, E.nid(ci.node)), set()).add(ci.args[0])
    c = f['cls']
    ms = {m['n'] for m in scalar_members(cx.p, c)}
    early = {}

    def seen(E, s, lv, v, e, fr):
        if lv.root == ('this', c) and len(lv.path) == 1 and lv.path[0] in ms and (v == fld(('init', ('this', c)), lv.path[0]) or v[0] == 'uninit') and not covers_enum(E.p, s):
            early.setdefault(lv.path[0], (fr.fn, e))
    E = Engine(cx.p, nomerge=True, on_call=on, on_load=seen, skip=logskip(cx.p))
    E.early = early
    try: outs = E.run(f, State(mon=None), args=a)
    except AnalysisError:
        E = Engine(cx.p, on_call=on, on_load=seen, skip=logskip(cx.p), disj=200)
        E.early = early
        outs = E.run(f, State(mon=None), args=a)
    E.sizes = sizes
    return E, [s for k, s, v in outs if k in ('R', 'N') and not contradictory(s) and not covers_enum(cx.p, s)]


@rule('P28', DOM + "Every constructor of every record is interpreted; each scalar or pointer member (in-class initialisers, initialiser lists, bodies and helpers they call included) must hold a value at its end, and elements of member arrays it allocates must all be stored. Objects of records without a constructor are followed by definite assignment from their declaration to their first use.")
def p28(cx):
    p = cx.p
    n = 0
    for c in sorted(p.records):
        if c.startswith(('std::', '__')): continue
        ms = scalar_members(p, c)
        cs = [f for f in p.funcs.values() if f.get('cls') == c and f.get('ctor')]
        user = [f for f in cs if not f.get('impl') and f.get('b')]
        if not user: continue
        for f in user:
            if f.get('acc') == 2 and not used(p, f): cx.sample("%s is private and never called" % f['q']); continue
            n += 1
            cx.funcs.add(f['q'])
            E, outs = built(cx, f)
            if not outs: cx.undecided.append(('member', cx.at(f), 'no path', '')); continue
            for m in ms:
                bad = [s for s in outs if unset(s, c, m['n'], m['ty'])]
                cx.ob(not bad, 'member', f, "%s gives %s a value" % (sig(f), m['n']), detail=bad and "no value on the path: " + '; '.join(show_fact(t, b) for t, b in list(facts_of(bad[0]))[-4:]))
            for w, (g, e) in E.early.items():
                cx.ob(False, 'order', g, "%s does not read %s before it has a value" % (sig(f), w), node=e)
            cx.ob(True, 'order', f, "%s reads no member before it has a value" % sig(f))
            done = set()
            for s in outs: arrays(cx, E, f, s, c, ms, done)
    cx.need(n, 25, 'constructors')
    locals_(cx)


def show_fact(t, b): return ('' if b else 'not ') + show(t)[:80]


def sig(f): return '%s(%s)' % (f['q'].rsplit('::', 1)[-1], ', '.join(x['ty'] for x in f['p']))


def arrays(cx, E, f, s, c, ms, done):
    """arrays of scalars allocated by the constructor: every element is stored"""
    for m in ms:
        if not is_ptr(m['ty']) or not is_scalar(cx.p, m['ty'].rstrip()[:-1].strip()): continue
        x = s.load(('this', c), (m['n'],))
        if x[0] != 'addr' or x[1][0] != 'heap' or x[2] != (): continue
        root = x[1]
        if (root, s.env.get(root)) in done: continue
        done.add((root, s.env.get(root)))
        if E.sizes.get(root) == {C(0)}: continue
        size = news(cx.p).get(root[2])
        if size is None or const_of(size['n']) is not None: continue
        r = filled(E, s, root)
        if r == 'unknown': cx.undecided.append(('elements', cx.at(f), m['n'], '')); continue
        cx.ob(r is None, 'elements', f, "every element of the array %s gets a value" % m['n'], detail=r)


def news(p):
    """array allocations by the number interpretation gave them"""
    sites = getattr(p, '_array_news', None)
    if sites is None: sites = p._array_news = [y for g in p.funcs.values() for y in walk([g.get('b') or [], g.get('inits') or []]) if y.get('k') == 'new' and y.get('arr')]
    return {y['_id']: y for y in sites if y.get('_id') is not None}


def filled(E, s, root):
    """the elements of the array root are stored by a loop from 0 in steps of one up to its end: None, complaint or 'unknown'"""
    hit = False
    for li in loops.infos(E):
        for h, backs, exits in li.rec['iters']:
            for b in backs:
                v = b.env.get(root)
                if v is None or v[0] != 'rec': continue
                for path, x in overrides(v):
                    if not path or not (isinstance(path[0], tuple) and path[0][0] == '[]'): continue
                    i = path[0][1]
                    if not (i[0] == 'phi' and i[1] == li.lid): continue
                    hit = True
                    if any(y[0] == 'uninit' and y[1] == root for y in subterms(x)): continue
                    if li.entry.get(i) == C(0) and li.delta.get(i) == 1:
                        return None
    if hit: return "no loop stores the elements from the first one on"
    v = s.env.get(root)
    return "no loop stores its elements" if v is None or v[0] == 'uninit' else 'unknown'


class Assigned(Flow):
    """members of a local object of a record without constructors that may still lack a value"""
    def __init__(self, p, recs):
        super().__init__(p)
        self.recs = recs
        self.bad = []
        self.n = 0

    def declare(self, v, s):
        c = v['ty'].replace('const ', '').replace('struct ', '').strip()
        if c in self.recs and (v.get('i') is None or v['i'].get('k') == 'ctor' and not v['i'].get('a') and not v['i'].get('zero')):
            s = dict(s)
            self.n += 1
            for m in self.recs[c]: s[(v['id'], m)] = frozenset(['unset'])
        return s

    def expr(self, n, s):
        if isinstance(n, dict) and s is not None:
            if n.get('k') == 'asg' and n.get('op') in ('=', None):
                t = bare(n['a'])
                if t.get('k') == 'mem' and bare(t['b']).get('k') == 'ref' and (bare(t['b']).get('id'), t['f']) in s:
                    s = self.expr(n['b'], s)
                    if s is None: return None
                    s = dict(s); s.pop((bare(t['b'])['id'], t['f'])); return s
                if t.get('k') == 'ref' and any(k[0] == t.get('id') for k in s):
                    s = self.expr(n['b'], s)
                    return None if s is None else {k: v for k, v in s.items() if k[0] != t['id']}
            if n.get('k') == 'mem' and bare(n['b']).get('k') == 'ref' and not n.get('arrow'):
                key = (bare(n['b']).get('id'), n['f'])
                if key in s: self.bad.append((n, n['f']))
                return s
            if n.get('k') == 'un' and n.get('op') == '&' and bare(n['e']).get('k') == 'ref':
                i = bare(n['e']).get('id')      # its address is taken: the callee fills it
                return {k: v for k, v in s.items() if k[0] != i}
            if n.get('k') == 'call' and n.get('oper') == '=' and n.get('a') and bare(n['a'][0]).get('k') == 'ref':
                i = bare(n['a'][0]).get('id')
                s = self.expr(n['a'][1:], s)
                return None if s is None else {k: v for k, v in s.items() if k[0] != i}
            if n.get('k') == 'ref' and n.get('dk') == 'local':
                for k in [k for k in s if k[0] == n.get('id')]: self.bad.append((n, k[1]))
                return s
        return super().expr(n, s)


def locals_(cx):
    p = cx.p
    recs = {}
    for c in p.records:
        ms = [m['n'] for m in scalar_members(p, c)]
        user = [f for f in p.funcs.values() if f.get('cls') == c and f.get('ctor') and not f.get('impl')]
        if ms and not user and 'union' not in c: recs[c] = ms
    n = 0
    for f in p.funcs.values():
        if not f.get('b'): continue
        if not any(v.get('ty', '').replace('const ', '').replace('struct ', '').strip() in recs for x in walk(f['b']) if x.get('k') == 'decl' for v in x['v']): continue
        F = Assigned(p, recs)
        F.run(f, {})
        n += F.n
        cx.funcs.add(f['q'])
        seen = set()
        for node, w in F.bad:
            if (node['l'], w) in seen: continue
            seen.add((node['l'], w))
            cx.ob(False, 'use', f, "member %s of a local object has a value before it is read" % w, node=node)
        for _ in range(F.n): cx.ob(True, 'use', f, "a local object is filled before it is used")
