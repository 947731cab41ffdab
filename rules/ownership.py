"""P29: owned memory is freed once, by the matching form"""
from ._lib import *
from .position import bare, const_of
from .memory import record_fields, is_ptr, strip_ty, lifetime_constant, covers_enum, sig, used


def name_of(f): return f['q'].rsplit('::', 1)[-1]
def is_dtor(f): return bool(f.get('dtor')) or name_of(f).startswith('~')


def touches(f):
    """f allocates or frees"""
    return any(x.get('k') in ('new', 'del') for x in walk([f['b'], f.get('inits') or []]))


class Trace:
    """one function interpreted with its allocations, releases and stores to pointer members"""
    def __init__(self, cx, f):
        self.cx, self.f = cx, f
        p, c = cx.p, f.get('cls')
        self.alloc = {}            # heap root -> node
        self.owned = {}            # (class, member) -> set of array forms
        self.lost = []             # stores over a pointer that is still owned
        self.twice = []
        self.freed = []            # (value, node, state)

        def on(E, s, ci):
            if ci.kind == 'new':
                self.alloc[('heap', ci.frame.ctx, E.nid(ci.node))] = ci.node
            if ci.kind == 'delete':
                v = ci.args[0]
                if is_c(v): return None
                if v in s.mon and not contradictory(s): self.twice.append((ci.node, ci.frame.fn))
                self.freed.append((v, ci.node, ci.frame.fn))
                s.mon = s.mon | {v}
            return None

        def st(E, s, lv, v, e, fr):
            if lv.root[0] != 'this' or len(lv.path) != 1: return
            w = lv.path[0]
            if v[0] == 'addr' and v[1][0] == 'heap' and v[2] == () and v[1] in self.alloc:
                self.owned.setdefault((declared(p, lv.root[1], w), w), set()).add(bool(self.alloc[v[1]].get('arr')))
        def before(E, s, lv, v, e, fr):
            pass
        self.on_store = st
        E = Engine(p, nomerge=True, on_call=on, on_store=st, skip=logskip(p), inline_if=self.small)
        self.E = E
        a = {x['n']: LV(('param', '#%d' % i), ()) if x['ty'].rstrip().endswith('&') else arg(i) for i, x in enumerate(f['p'])}
        try: self.outs = E.run(f, State(mon=frozenset()), args=a)
        except AnalysisError:
            E = self.E = Engine(p, on_call=on, on_store=st, skip=logskip(p), inline_if=self.small, disj=100)
            self.outs = E.run(f, State(mon=frozenset()), args=a)

    def small(self, g):
        """helpers worth following: those that allocate or free, directly or through helpers of their own"""
        return frees(self.cx.p, g['fid'])


_FREES = {}


def frees(p, fid, seen=()):
    key = (id(p), fid)
    if key in _FREES: return _FREES[key]
    f = p.funcs.get(fid)
    if f is None or not f.get('b') or fid in seen: return False
    r = touches(f) or any(frees(p, x.get('fid'), seen + (fid,)) for x in walk([f['b'], f.get('inits') or []]) if x.get('fid') and x['fid'] != fid)
    _FREES[key] = r
    return r


@rule('P29', DOM + "Every function that allocates or frees is interpreted with the allocations, releases and pointer members on each path: a member that receives an allocation is owned by its class; the class's destructor must release it on every path by the form of its allocation; no path releases a pointer twice, keeps a released pointer in a member, or replaces an owned pointer that it did not release. Deletes through a base class need a virtual destructor; classes that own raw memory (directly or by value members) must not be copied by compiler-generated copies anywhere.")
def p29(cx):
    p = cx.p
    traces = {}
    owned = {}
    for f in p.funcs.values():
        if not f.get('b') or not touches(f) and not (f.get('cls') and (f.get('ctor') or is_dtor(f)) and frees(p, f['fid'])): continue
        if not f.get('cls') or f.get('impl') and not f.get('ctor'): continue
        T = traces[f['fid']] = Trace(cx, f)
        cx.funcs.add(f['q'])
        for k, v in T.owned.items():
            if k[0] == f['cls'] or True: owned.setdefault(k, set()).update(v)
    cx.need(len(owned), 8, 'owning members')
    classes = {}
    for (c, w), forms in sorted(owned.items()):
        classes.setdefault(c, []).append(w)
        cx.ob(len(forms) == 1, 'form', next(f for f in p.funcs.values() if f.get('cls') == c and f.get('b')), "%s::%s is always allocated by the same form of new" % (c, w))
        released(cx, traces, c, w, forms)
    for f in p.funcs.values():
        if f['fid'] in traces: paths_ok(cx, traces[f['fid']], f, owned)
    deletes(cx, owned)
    locals_(cx)
    copies(cx, classes)


def alive(p, s, c):
    """the path does not need a member that is constant for the object's lifetime to differ from that constant"""
    th = ('init', ('this', c))
    for t, b in s.facts.items():
        x = t
        neg = False
        if x[0] == 'fld' and x[1] == th:
            k = lifetime_constant(p, c, x[2])
            if k is not None and bool(k[1]) != bool(b): return False
    return True


def declared(p, c, w):
    return next((o for o, m in record_fields(p, c) if m['n'] == w), c)


def isnull(s, v):
    for z in (C(None), C(0)):
        for t in (op('==', v, z), op('==', z, v)):
            if s.facts.get(t) is True or s.holds(t) is True: return True
    return s.facts.get(v) is False or s.facts.get(('val', v)) in (C(None), C(0))


def dtor_of(p, c):
    for f in p.funcs.values():
        if f.get('cls') == c and is_dtor(f) and f.get('b') and not f.get('impl'): return f
    return None


def released(cx, traces, c, w, forms):
    p = cx.p
    d = dtor_of(p, c)
    where = next((f for f in p.funcs.values() if f.get('cls') == c and f.get('ctor') and f.get('b')), None)
    if d is None:
        cx.ob(False, 'release', where, "%s releases %s in its destructor" % (c, w), detail="%s has no destructor" % c); return
    T = traces.get(d['fid'])
    if T is None:
        cx.ob(False, 'release', d, "%s releases %s in its destructor" % (c, w), detail="the destructor frees nothing"); return
    v = fld(('init', ('this', c)), w)
    n = 0
    for k, s, r in T.outs:
        if k not in ('R', 'N') or contradictory(s) or not alive(p, s, c): continue
        n += 1
        null = isnull(s, v)
        cx.ob(v in s.mon or null, 'release', d, "%s releases %s in its destructor on every path" % (c, w), detail="not released when " + '; '.join(show(t)[:60] + (' holds' if b else ' fails') for t, b in list(facts_of(s))[:3]))
    if not n: cx.undecided.append(('release', cx.at(d), w, 'no path'))


def paths_ok(cx, T, f, owned):
    p = cx.p
    c = f['cls']
    for node, g in T.twice: cx.ob(False, 'once', g, "%s releases each pointer once" % f['q'], node=node)
    cx.ob(True, 'once', f, "%s releases each pointer once" % f['q'])
    mine = [w for (k, w) in owned if k == c]
    for k, s, v in T.outs:
        if k not in ('R', 'N') or contradictory(s) or not alive(p, s, c): continue
        for w in mine:
            th = ('this', c)
            now, old = s.load(th, (w,)), fld(('init', th), w)
            if not is_dtor(f):
                cx.ob(is_c(now) or now not in s.mon, 'dangling', f, "%s leaves no released pointer in %s" % (f['q'], w))
            if not f.get('ctor') and now != old and not is_dtor(f):
                null = isnull(s, old)
                cx.ob(null or old in s.mon or gone(T, s, old), 'replace', f, "%s releases %s before replacing it" % (f['q'], w))
        # allocations of this path that nobody holds at its end
        held = {x for r, y in s.env.items() if r[0] != 'v' and not (r[0] == 'heap') for x in subterms(y) if x[0] == 'addr'}
        held |= {x for r, y in s.env.items() if r[0] == 'heap' for x in subterms(y) if x[0] == 'addr'}
        if v is not None and not isinstance(v, LV): held |= {x for x in subterms(v) if x[0] == 'addr'}
        for root in T.alloc:
            if root not in s.env: continue
            a = ('addr', root, ())
            if a in s.mon or a in held: continue
            if any(x[0] == 'call' and a in subterms(x) for r, y in s.env.items() for x in subterms(y)): continue
            if root[1] != ('main',) : continue
            cx.ob(False, 'leak', f, "every allocation of %s is released or kept" % f['q'], node=T.alloc[root])
    cx.ob(True, 'leak', f, "every allocation of %s is released or kept" % f['q'])


def gone(T, s, old):
    """the old pointer was handed over to something that keeps it"""
    return any(old in set(subterms(y)) for r, y in s.env.items() if r[0] in ('this', 'param', 'deref') for y in [y] if y != old and r[0] != 'this')


def alloc_forms(p):
    """how what a pointer member, global or local points to was allocated: key -> set of array forms"""
    out = {}
    for f in p.funcs.values():
        if not f.get('b'): continue
        lf = {}
        for x in walk([f['b'], f.get('inits') or []]):
            if x.get('k') == 'decl':
                for v in x['v']:
                    if v.get('i') and bare(v['i']).get('k') == 'new': lf.setdefault(v['id'], set()).add(bool(bare(v['i']).get('arr')))
            if x.get('k') == 'asg' and bare(x['b']).get('k') == 'new':
                t = bare(x['a'])
                if t.get('k') == 'ref' and t.get('dk') == 'local': lf.setdefault(t['id'], set()).add(bool(bare(x['b']).get('arr')))
        for i, forms in lf.items(): out.setdefault((f['fid'], i), set()).update(forms)
        for x in walk([f['b'], f.get('inits') or []]):
            if x.get('k') == 'asg':
                t, v = bare(x['a']), bare(x['b'])
                forms = {bool(v.get('arr'))} if v.get('k') == 'new' else lf.get(v.get('id'), set()) if v.get('k') == 'ref' else set()
                if t.get('k') == 'mem': out.setdefault(('m', t['f'], t.get('cls')), set()).update(forms)
                elif t.get('k') == 'ref' and t.get('dk') == 'global': out.setdefault(('g', t['n']), set()).update(forms)
        for i in f.get('inits') or []:
            if i.get('e') and bare(i['e']).get('k') == 'new' and i.get('m'): out.setdefault(('m', i['m'], f.get('cls')), set()).add(bool(bare(i['e']).get('arr')))
    return out


def deletes(cx, owned):
    """every delete: form of the allocation, virtual destructor"""
    p = cx.p
    forms = alloc_forms(p)
    n = 0
    for f in p.funcs.values():
        if not f.get('b'): continue
        for x in walk(f['b']):
            if x.get('k') != 'del': continue
            n += 1
            e = bare(x['e'])
            key = ('m', e['f'], e.get('cls')) if e.get('k') == 'mem' else ('g', e['n']) if e.get('dk') == 'global' else (f['fid'], e.get('id'))
            fs = forms.get(key, set())
            if not fs: cx.sample("%s: allocation of %s not found" % (f['q'], e.get('f') or e.get('n')))
            cx.ob(not fs or fs == {bool(x.get('arr'))}, 'form', f, "%s is released by the form of delete that matches its allocation" % (e.get('f') or e.get('n')), node=x,
                  detail="allocated with new%s, released with delete%s" % ('[]' if True in fs else '', '[]' if x.get('arr') else ''))
            t = strip_ty(x.get('dty', ''))
            if p.derived.get(t):
                cx.ob(bool(virtual_dtor(p, t)), 'virtual', f, "%s, deleted through a pointer to it, has a virtual destructor" % t, node=x)
    cx.need(n, 8, 'deletes')


def virtual_dtor(p, c):
    r = p.records.get(c)
    if r is None: return True
    return r.get('vdtor') or any(virtual_dtor(p, strip_ty(b)) for b in r['bases'])


def locals_(cx):
    """a local pointer to an array or object allocated in the same function, deleted twice or used after: covered by the paths above for classes"""


def owners(cx, classes):
    """classes for which a member by member copy would share or double free raw memory, with the reason"""
    p = cx.p
    out = {c: "%s owns %s" % (c, ws[0]) for c, ws in classes.items()}
    while True:
        new = {}
        for c, r in p.records.items():
            if c in out: continue
            for b in r['bases']:
                if strip_ty(b) in out: new[c] = "its base %s" % strip_ty(b)
            for m in r['f']:
                if strip_ty(m['ty']) in out: new[c] = "its member %s" % m['n']
        new = {c: why for c, why in new.items() if c not in out}
        if not new: return out
        out.update(new)


def copies(cx, classes):
    """compiler-generated copies of such classes that the program uses"""
    p = cx.p
    risky = owners(cx, classes)
    safe_c, safe_a = set(), set()

    def shallow(c, what, seen=()):
        """a generated copy of c copies some raw owner member by member"""
        if c in seen: return None
        r = p.records.get(c)
        if r is None and '<' in c: r = next((x for n, x in p.records.items() if n.split('<')[0] == c.split('<')[0]), None)
        if r is None: return None
        if c in classes: return c
        for b in r['bases']:
            if not user(strip_ty(b), what):
                x = shallow(strip_ty(b), what, seen + (c,))
                if x: return x
        for m in r['f']:
            t = strip_ty(m['ty'])
            if t in risky and not user(t, what):
                x = shallow(t, what, seen + (c,))
                if x: return x
        return None

    def user(c, what):
        return any(f.get('cls') == c and f.get('b') and not f.get('impl') and len(f['p']) == 1 and strip_ty(f['p'][0]['ty']) == c and (f.get('ctor') if what == 'constructor' else name_of(f) == 'operator=') for f in p.funcs.values())
    n = 0
    for f in p.funcs.values():
        if not f.get('b') or f.get('impl'): continue
        if f.get('acc') == 2 and not used(p, f): continue
        for x in walk([f['b'], f.get('inits') or []]):
            c = what = None
            if x.get('k') == 'ctor' and x.get('copy') and x.get('a'):
                c, what = strip_ty(x['cls']), 'constructor'
                if temporary(x['a'][0]): continue
            elif x.get('k') == 'call' and x.get('oper') == '=' and len(x.get('a', [])) == 2: c, what = strip_ty(x['a'][0].get('ty', '')), 'assignment'
            if c is None or c not in risky: continue
            n += 1
            bad = None if user(c, what) else shallow(c, what)
            cx.ob(bad is None, 'copy', f, "objects that own raw memory are never copied member by member", node=x, detail=bad and "copy %s of %s: %s has no copy of its own" % (what, c, bad))
    cx.counts['copies of owning objects'] = n


def temporary(e):
    """the copied object is a temporary made here: the copy is elided"""
    e0 = bare(e)
    while e0.get('k') in ('tmp', 'bindtmp', 'paren', 'mat') and e0.get('e'): e0 = bare(e0['e'])
    return e0.get('k') == 'ctor' or e0.get('k') == 'call' and not e0.get('ty', '').endswith('&') and not e0.get('lv')
