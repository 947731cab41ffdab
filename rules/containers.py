"""P30 (and the element transfers of P27): laws of the queue and history containers

A container is the pointer to its elements plus three numbers: capacity M, position F of the first element and number N of elements; element j lives in slot (F + j) mod M. Each method is summarised as a set of transfer functions (path condition, new M/F/N, element writes, loops as per-round transfers); the summary is compared with the effect on the abstract list for every small M, F, N (and argument) that satisfies the invariant."""
from ._lib import *
from sa import loops

BASES = ('array_list', 'circular_buffer')
LIMIT = 200


class Unknown(Exception): pass


def ev(t, env):
    """integer value of a term; env: atom -> int, or a callable"""
    k = t[0]
    if k == 'c':
        if isinstance(t[1], bool): return int(t[1])
        if isinstance(t[1], (int, float)): return t[1]
        raise Unknown(t)
    if k == 'op':
        o, a = t[1], t[2:]
        if o == 'and': return int(all(ev(x, env) for x in a))
        if o == 'or': return int(any(ev(x, env) for x in a))
        v = [ev(x, env) for x in a]
        if o == '+': return v[0] + v[1] if len(v) == 2 else v[0]
        if o == '-': return v[0] - v[1] if len(v) == 2 else -v[0]
        if o == 'neg': return -v[0]
        if o == '*': return v[0] * v[1]
        if o in ('/', '%'):
            if v[1] == 0: raise Unknown(t)
            q = abs(v[0]) // abs(v[1]) * (1 if (v[0] < 0) == (v[1] < 0) else -1)
            return q if o == '/' else v[0] - q * v[1]
        if o == '<': return int(v[0] < v[1])
        if o == '<=': return int(v[0] <= v[1])
        if o == '==': return int(v[0] == v[1])
        if o == '!': return int(not v[0])
        raise Unknown(t)
    if k == 'ite': return ev(t[2] if ev(t[1], env) else t[3], env)
    if k == 'val': return ev(t[1], env)
    x = env(t)
    if x is None: raise Unknown(t)
    return x


class Container:
    def __init__(self, p, cls):
        self.p, self.cls = p, cls
        self.base = cls.split('<')[0]
        fs = next(r for n, r in p.records.items() if n.startswith(self.base + '<'))['f']
        self.ptr = [f['n'] for f in fs if f['ty'].rstrip().endswith('*')]
        ints = [f['n'] for f in fs if f['ty'].replace('unsigned ', '') in ('int', 'long', 'size_t')]
        self.grow = [f['n'] for f in fs if f['ty'] == 'bool']
        self.N, self.M = self.reader('count'), self.reader('get_max_size')
        rest = [x for x in ints if x not in (self.N, self.M)]
        if len(self.ptr) != 1 or len(rest) != 1 or not self.N or not self.M: raise AnalysisError("members of %s not recognised" % cls)
        self.ptr, self.F = self.ptr[0], rest[0]
        self.th = ('this', cls)

    def methods(self, name):
        return [f for f in self.p.funcs.values() if f.get('cls') == self.cls and f.get('b') and not f.get('impl') and (name == '<ctor>' and f.get('ctor') or not f.get('ctor') and f['q'].rsplit('::', 1)[-1] == name)]

    def reader(self, name):
        for f in self.methods(name):
            for k, s, v in paths_of(self.p, f):
                if k == 'R':
                    r = retval(s, v)
                    if r[0] == 'fld' and r[1] == ('init', ('this', self.cls)): return r[2]
        return None


def paths_of(p, f, on=None):
    E = Engine(p, nomerge=True, on_call=on, skip=logskip(p))
    return E.run(f, State(mon=None), args=bind(f))


def bind(f):
    a = {}
    for i, x in enumerate(f['p']): a[x['n']] = LV(('param', '#%d' % i), ()) if x['ty'].rstrip().endswith('&') else arg(i)
    return a


class Summary:
    """transfer functions of one method"""
    def __init__(self, C_, f, helper):
        self.K, self.f = C_, f
        self.size = {}
        K = C_

        def on(E, s, ci):
            if ci.kind == 'new' and ci.args:
                self.size[('heap', ci.frame.ctx, E.nid(ci.node))] = ci.args[0]
                return None
            if ci.name == 'operator=' and isinstance(ci.this, LV) and any(isinstance(x, tuple) for x in ci.this.path):
                s = s.copy(); s.store(ci.this.root, ci.this.path, ci.args[0]); return [(s, ci.this)]
            g = E.p.funcs.get(ci.fid) if ci.fid else None
            if g is not None and g['fid'] in helper and isinstance(ci.this, LV) and ci.args:
                t = ci.this
                return [(s, op('%', add(ci.args[0], s.load(t.root, t.path + (K.F,))), s.load(t.root, t.path + (K.M,))))]
            return None
        self.E = Engine(C_.p, nomerge=True, on_call=on, skip=logskip(C_.p))
        self.outs = self.E.run(f, State(mon=None), args=bind(f))
        self.recs = [(lid, r) for lid, rs in self.E.loops.items() for r in rs]


class Run:
    """the summary of a method at one small instance: env maps atoms to numbers"""
    def __init__(self, S, env):
        self.S, self.env = S, dict(env)
        self.slots = {}
        self.bad = []

    def at(self, cur=()):
        def get(t):
            if cur and t in cur: return cur[t]
            if t in self.env: return self.env[t]
            return None
        return get

    def ok(self, s, cur=()):
        """the path condition holds (conditions that cannot be evaluated yet: None)"""
        r = True
        for t, v in s.facts.items():
            if t[0] == 'val':
                try:
                    if ev(t[1], self.at(cur)) != ev(v, self.at(cur)): return False
                except Unknown: pass
                continue
            try:
                if bool(ev(t, self.at(cur))) != v: return False
            except Unknown: r = None
        return r

    def results(self):
        """(kind, state, value, run) of the paths taken at this instance"""
        out = []
        for k, s, v in self.S.outs:
            if k not in ('R', 'N', 'T') or contradictory(s): continue
            if self.ok(s) is False: continue
            r = Run(self.S, self.env)
            if not r.loops(s): continue
            if r.ok(s) is not True: continue
            out.append((k, s, v, r))
        return out

    def loops(self, s):
        """runs the loops this path goes through; false when the path is not the one taken"""
        want = {x[1] for t in list(s.facts) + [v for v in s.env.values()] for x in subterms(t) if x[0] == 'phi'}
        for _ in range(3):
            for lid, rec in self.S.recs:
                if lid in want:
                    for st in [e for e in rec['entry'] if self.ok(e) is not False]: want |= {x[1] for t in list(st.facts) + list(st.env.values()) for x in subterms(t) if x[0] == 'phi' and x[1] != lid}
        done = set()
        for lid, rec in self.S.recs:
            if lid not in want or lid in done: continue
            ent = [e for e in rec['entry'] if self.ok(e) is True]
            if not ent: continue
            if not self.run(lid, rec, ent[0]): return False
            done.add(lid)
        return done == want

    def run(self, lid, rec, entry):
        phis = {}
        for h, bs, ex in rec['iters']:
            for r, v in h.env.items():
                for x in subterms(v):
                    if x[0] == 'phi' and x[1] == lid: phis[x] = 1
        cur = {}
        for t in phis:
            try: cur[t] = ev(entry.load(t[2], t[3]), self.at())
            except Unknown: pass
        arrays = {t[2] for t in phis if t[2][0] in ('heap', 'deref')}
        for _ in range(LIMIT):
            step = None
            for h, bs, ex in rec['iters']:
                if self.ok(h, cur) is False: continue
                for b in bs:
                    if self.ok(b, cur) is True and not contradictory(b): step = step or ('b', h, b)
                for o in ex:
                    if o[0] == 'N' and self.ok(o[1], cur) is True: step = step or ('x', h, o[1])
            if step is None: return False
            _, h, b = step
            self.stores(b, arrays | {r for r in b.env if r[0] in ('heap', 'deref')}, cur, base=h)
            new = {}
            for t in phis:
                if t in cur and t[2][0] == 'v' and t[2] not in b.env: new[t] = cur[t]      # the frame of the loop is gone
                elif t in cur:
                    try: new[t] = ev(b.load(t[2], t[3]), self.at(cur))
                    except Unknown: pass
            cur = new
            if step[0] == 'x': break
        else: return False
        self.env.update(cur)
        return True

    def stores(self, s, roots, cur, base=None):
        w = []
        for r in roots:
            v = s.env.get(r)
            if v is None or v[0] != 'rec': continue
            o = base.env.get(r) if base is not None else None
            before = dict(o[2]) if o is not None and o[0] == 'rec' else {}
            for key, x in v[2]:
                if not (isinstance(key, tuple) and key[0] == '[]'): continue
                if before.get(key) == x or x[0] == 'phi' and x[2] == r: continue
                try: i = ev(key[1], self.at(cur))
                except Unknown: w.append((r, None, ('?',))); continue
                self.inside(r, i)
                w.append((r, i, self.token(x, cur, s)))
        for r, i, x in w: self.slots[(r, i)] = x

    def inside(self, r, i):
        n = self.capacity(r)
        if n is not None and not (0 <= i < n): self.bad.append("slot %s of %s is accessed" % (i, n))

    def capacity(self, r):
        if r[0] == 'heap':
            t = self.S.size.get(r)
            if t is None: return None
            try: return ev(t, self.at())
            except Unknown: return None
        for o in ('this', 'src'):
            if r == self.array(o): return self.env.get(self.atom(o, self.S.K.M))
        return None

    def obj(self, o): return ('init', self.S.K.th) if o == 'this' else ('init', ('param', '#0'))
    def atom(self, o, w): return fld(self.obj(o), w)
    def array(self, o): return ('deref', self.atom(o, self.S.K.ptr))

    def token(self, x, cur=(), s=None):
        """what an element value is: an element of the container, of the source, an argument, or unknown"""
        if x[0] == 'init' and x[1][0] == 'param': return x[1][1]
        if x[0] == 'init' and x[1][0] == 'deref' and x[1][1][0] == 'init' and x[1][1][1][0] == 'param': return x[1][1][1][1]
        if x[0] == 'fld' and isinstance(x[2], tuple) and x[2][0] == '[]':
            b = x[1]
            r = b[1] if b[0] == 'init' else b[2] if b[0] == 'phi' else None
            if r is not None:
                try: i = ev(x[2][1], self.at(cur))
                except Unknown: return ('?',)
                self.inside(r, i)
                return self.slot(r, i)
        return ('?',)

    def slot(self, r, i):
        if (r, i) in self.slots: return self.slots[(r, i)]
        if r == self.array('this'): return ('old', i)
        if r == self.array('src'): return ('src', i)
        return ('uninit',)

    def final(self, s):
        """(numbers, list of the elements) after the call"""
        self.stores(s, [r for r in s.env if r[0] in ('heap', 'deref')], ())
        K = self.S.K
        n = {w: ev(s.load(K.th, (getattr(K, w),)), self.at()) for w in 'MFN'}
        p = s.load(K.th, (K.ptr,))
        r = p[1] if p[0] == 'addr' and p[2] == () else ('deref', p)
        n['cap'] = self.capacity(r)
        els = [self.slot(r, (n['F'] + j) % n['M']) if n['M'] > 0 else ('?',) for j in range(max(0, min(n['N'], 50)))]
        return n, els


def instances(K, f, maxcap=4):
    """small states that satisfy the invariant, with arguments"""
    own = ('init', K.th)
    for M in range(1, maxcap + 1):
        for F in range(M):
            for N in range(M + 1):
                e = {fld(own, K.M): M, fld(own, K.F): F, fld(own, K.N): N}
                for g in ([0, 1] if K.grow else [None]):
                    if g is not None: e[fld(own, K.grow[0])] = g
                    yield dict(e), (M, F, N, g)


def old_list(M, F, N): return [('old', (F + j) % M) for j in range(N)]


def helpers(cx, K):
    """methods that turn an element number into a slot: (number + F) mod M, for every number the container uses"""
    out = set()
    for f in [g for g in K.p.funcs.values() if g.get('cls') == K.cls and g.get('b') and not g.get('ctor') and len(g['p']) == 1 and g['p'][0]['ty'].replace('const ', '') == 'int' and g['ret'].replace('const ', '') in ('int', 'unsigned int', 'long')]:
        S = Summary(K, f, ())
        bad, n = None, 0
        try:
            for e, (M, F, N, g) in instances(K, f):
                if g: continue
                for i in range(0, M + 1):
                    e[arg(0)] = i
                    rs = Run(S, e).results()
                    if not rs: raise Unknown('no path')
                    for k, s, v, r in rs:
                        if k == 'T': bad = bad or "element %d: throws" % i; continue
                        x = ev(retval(s, v), r.at())
                        n += 1
                        if x != (i + F) % M: bad = bad or "element %d of a container of %d whose first is in slot %d is looked up in slot %d" % (i, M, F, x)
        except Unknown as u:
            cx.undecided.append(('index', cx.at(f), 'not decided', str(u)[:80])); continue
        cx.funcs.add(f['q'])
        cx.ob(bad is None, 'index', f, "element j lives in slot (first + j) mod capacity", detail=bad)
        out.add(f['fid'])
    return out


EXPECT = {}


def expected(K, name, M, F, N, g, L, x):
    """(list after, 'throws' or None) for name; x: the argument"""
    full = N == M
    new = '#0'
    if name == 'push_back':
        if not full: return L + [new]
        if K.base == 'array_list': return (L + [new]) if g else 'throws'
        return L[1:] + [new]
    if name == 'push_front':
        if not full: return [new] + L
        if K.base == 'array_list': return ([new] + L) if g else 'throws'
        return [new] + L[:-1]
    if name == 'pop_front': return 'throws' if not N else L[1:]
    if name == 'pop_back': return 'throws' if not N else L[:-1]
    if name in ('clear', 'initialize'): return []
    return L


def law(cx, K, f, name, helper):
    S = Summary(K, f, helper)
    cx.funcs.add(f['q'])
    rule_ = {'push_back': 'add', 'push_front': 'add', 'pop_front': 'remove', 'pop_back': 'remove', 'operator[]': 'element', 'get': 'element', 'resize': 'grow', 'copy': 'copy'}.get(name, 'state')
    n = 0
    bad = {}

    def no(code, msg, detail): bad.setdefault((code, msg), detail)
    try:
        for e, (M, F, N, g) in instances(K, f, (3 if name == 'copy' else 4) + (2 if cx.tier == 'thorough' else 0)):
            L = old_list(M, F, N)
            args = [None]
            if name == 'resize': args = list(range(max(1, N), 2 * M + 2))
            if name in ('operator[]', 'get'): args = list(range(N))
            if name == 'copy':
                if g: continue
                args = [(m, f2, c) for m in range(1, 6 if cx.tier == 'thorough' else 4) for f2 in range(m) for c in range(m + 1)]
            for x in args:
                e2 = dict(e)
                if name == 'copy':
                    src = ('init', ('param', '#0'))
                    e2.update({fld(src, K.M): x[0], fld(src, K.F): x[1], fld(src, K.N): x[2]})
                    L = [('src', (x[1] + j) % x[0]) for j in range(x[2])]
                elif x is not None: e2[arg(0)] = x
                rs = Run(S, e2).results()
                if not rs: raise Unknown('no path for %s' % str((M, F, N, g, x)))
                want = expected(K, name, M, F, N, g, L, x)
                here = "capacity %d, first slot %d, %d elements%s" % (M, F, N, '' if x is None else ', argument %s' % str(x))
                for k, s, v, r in rs:
                    n += 1
                    if (k == 'T') != (want == 'throws'):
                        no('refuse', "%s refuses exactly when %s" % (name, 'the container is empty' if 'pop' in name else 'it is full and may not grow' if 'push' in name else 'never'), "%s: %s" % (here, 'throws' if k == 'T' else 'does not throw')); continue
                    if k == 'T': continue
                    nums, els = r.final(s)
                    ret = None
                    if name in ('operator[]', 'get', 'pop_front', 'pop_back') and v is not None:
                        lv = v if isinstance(v, LV) else LV(v[1], v[2]) if v[0] == 'lvref' else None
                        if lv is not None and lv.path and isinstance(lv.path[0], tuple):
                            i = ev(lv.path[0][1], r.at()); r.inside(lv.root, i); ret = r.slot(lv.root, i)
                        elif not isinstance(v, LV): ret = r.token(v)
                        if ret == ('?',): raise Unknown('returned element')
                    if ('?',) in els: raise Unknown('element value')
                    for b in r.bad: no('bounds', "%s only accesses slots of its allocation" % name, "%s: %s" % (here, b))
                    if els != want: no(rule_, "the elements after %s are the expected ones, in order" % name, "%s: elements %s instead of %s" % (here, render(els), render(want)))
                    if not (nums['M'] >= 1 and 0 <= nums['F'] < nums['M'] and 0 <= nums['N'] <= nums['M']): no('invariant', "%s keeps the position of the first element and the count within the capacity" % name, "%s: then capacity %d, first slot %d, count %d" % (here, nums['M'], nums['F'], nums['N']))
                    if nums['cap'] is not None and nums['cap'] != nums['M']: no('invariant', "the recorded capacity is the size of the allocation after %s" % name, "%s: capacity %d, allocation %d" % (here, nums['M'], nums['cap']))
                    if name == 'resize' and nums['M'] != x: no('grow', "resizing gives the requested capacity", here + ": capacity %d" % nums['M'])
                    if ret is not None:
                        w = L[0] if name == 'pop_front' else L[-1] if name == 'pop_back' else L[x]
                        if ret != w: no(rule_, "%s returns the right element" % name, "%s: returns %s instead of %s" % (here, render([ret]), render([w])))
    except Unknown as u:
        cx.undecided.append((rule_, cx.at(f), name, str(u)[:100]))
        if not bad: return
    except AnalysisError as u:
        cx.undecided.append((rule_, cx.at(f), name, str(u)[:100])); return
    for (code, msg), d in bad.items(): cx.ob(False, code, f, msg, detail=d)
    for code in (rule_, 'bounds', 'invariant', 'refuse'):
        if not any(b[0] == code for b in bad): cx.ob(True, code, f, "%s: %d small instances" % (name, n))
    cx.counts['instances evaluated'] = cx.counts.get('instances evaluated', 0) + n


def render(els):
    return '[' + ', '.join('new' if x == '#0' else ('e%s' % x[1] if x[0] == 'old' else '%s%s' % (x[0], x[1] if len(x) > 1 else '')) for x in els) + ']' if isinstance(els, list) else str(els)


def constructors(cx, K):
    for f in K.methods('<ctor>'):
        if f['p'] and not f['p'][0]['ty'].replace('const ', '').startswith(('int', 'unsigned')): continue
        S = Summary(K, f, ())
        cx.funcs.add(f['q'])
        for m in ([1, 2, 5] if f['p'] else [None]):
            try:
                for k, s, v, r in Run(S, {arg(0): m} if m else {}).results():
                    nums, els = r.final(s)
                    cx.ob(nums['N'] == 0 and nums['M'] >= 1 and 0 <= nums['F'] < nums['M'], 'invariant', f, "a new container is empty and its first slot lies within its capacity", detail=str(nums))
                    cx.ob(nums['cap'] == nums['M'], 'invariant', f, "the allocation of a new container has its capacity", detail=str(nums))
                    if m: cx.ob(nums['M'] == m, 'invariant', f, "a new container has the requested capacity", detail=str(nums))
            except Unknown as u: cx.undecided.append(('invariant', cx.at(f), 'constructor', str(u)[:80]))


METHODS = ('push_back', 'push_front', 'pop_front', 'pop_back', 'operator[]', 'get', 'clear', 'initialize', 'resize', 'copy', 'count', 'get_max_size')


def containers(p):
    return [c for b in BASES for c in ([b + '<int>'] if any(f.get('cls') == b + '<int>' for f in p.funcs.values()) else sorted(x for x in p.records if x.startswith(b + '<')))]


@rule('P30', DOM + "Every method of the container templates (all members, explicitly instantiated) is summarised by interpretation as path conditions, number updates and element writes, loops as per-round transfers. The summaries are compared with the list operation they stand for at every state of capacity 1-4 that satisfies the invariant.")
def p30(cx):
    n = 0
    for cls in containers(cx.p):
        K = Container(cx.p, cls)
        h = helpers(cx, K)
        constructors(cx, K)
        for name in METHODS:
            if name == 'copy': continue
            for f in K.methods(name):
                if name == 'initialize': continue
                law(cx, K, f, name, h); n += 1
    cx.need(n, 8, 'container methods')


def transfers(cx):
    """P27: copy() of a container"""
    n = 0
    for cls in containers(cx.p):
        K = Container(cx.p, cls)
        h = {f['fid'] for f in K.methods('get_index_position')}
        for f in K.methods('copy'):
            law(cx, K, f, 'copy', h); n += 1
    return n
