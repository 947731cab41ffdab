"""P32: the number formatter stays inside its buffers

The formatter is interpreted with its digit generator kept symbolic. Every store, load, memcpy and memset reached gives a base and an offset that are linear in the digit count, the decimal
exponent, the precision and the loop counters; the polyhedron of the path facts, the loop invariants (a counter is its entry value plus a constant per pass) and the ranges of the inputs is
intersected with "outside the buffer" and must be empty.
"""
from ._lib import *
from sa import loops, poly
from sa.poly import lin_add

ROOT = 'utilities::dtos'
GENERATOR = 'grisu2'
DIGITS = (1, 17)             # significant digits of a binary64
EXPONENT = (-324, 308)       # decimal exponent of the first digit of a finite binary64
RANGES = {'unsigned char': (0, 255), 'uint8_t': (0, 255), 'bool': (0, 1)}


class NonLinear(Exception): pass


class Shape:
    def __init__(self, cx, E, prms):
        self.cx, self.E = cx, E
        self.sizes = {}
        self.recs = {}
        self.inv = {}
        self.prms = prms
        for lid, rs in E.loops.items():
            for r in rs: self.recs.setdefault(lid, []).append(r)
        self.gen = [f for f in cx.p.funcs.values() if f['q'].split('::')[-1] == GENERATOR and f.get('b')]

    # -- integer terms
    def lin(self, t):
        k = t[0]
        if k == 'c':
            if isinstance(t[1], (bool, int)): return {}, int(t[1])
            raise NonLinear(t)
        if k == 'op':
            o = t[1]
            if o == '+' and len(t) == 4: return lin_add(self.lin(t[2]), self.lin(t[3]))
            if o == '-' and len(t) == 4: return lin_add(self.lin(t[2]), self.lin(t[3]), -1)
            if o == 'neg': return lin_add(({}, 0), self.lin(t[2]), -1)
            if o == '*':
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if is_c(a) and isinstance(a[1], int): return lin_add(({}, 0), self.lin(b), a[1])
            raise NonLinear(t)
        if k == 'val': return self.lin(t[1])
        if k in ('call', 'init', 'phi', 'havoc', 'out') or self.atom(t): return {t: 1}, 0
        raise NonLinear(t)

    def atom(self, t):
        return isinstance(t[0], str) and t[0] not in ('op', 'ite', 'padd', 'addr', 'rec', 'c', 'cat', 'str')

    # -- pointers: (root, linear offset)
    def ptr(self, v, s):
        if v[0] == 'padd':
            b, o = self.ptr(v[1], s)
            return b, lin_add(o, self.lin(v[2]))
        if v[0] == 'addr':
            path = v[2]
            if path and isinstance(path[-1], tuple) and path[-1][0] == '[]':
                if v[1][0] == 'deref':
                    b, o = self.ptr(v[1][1], s)
                    if len(path) == 1: return b, lin_add(o, self.lin(path[-1][1]))
                if len(path) == 1: return v[1], self.lin(path[-1][1])
            if not path:
                return self.ptr(v[1][1], s) if v[1][0] == 'deref' else (v[1], ({}, 0))
            raise NonLinear(v)
        if v[0] == 'uninit': return v[1], ({}, 0)
        if v[0] == 'rec': return self.ptr(v[1], s)
        if v[0] == 'init' and v[1][0] == 'v': return v[1], ({}, 0)
        if v[0] == 'phi':
            rec = self.rec_of(v, s)
            if rec:
                e = self.entry(rec, v, s)
                step = self.pstep(rec, v)
                if e is not None and step is not None:
                    b, o = self.ptr(e, s)
                    return b, lin_add(o, ({('passes', v[1]): 1}, 0), step)
        raise NonLinear(v)

    def pstep(self, rec, v):
        ds = set()
        for h, bs, _ in rec['iters']:
            for b in bs:
                n = b.load(v[2], v[3])
                if n == v: ds.add(0)
                elif n[0] == 'padd' and n[1] == v and is_c(n[2]): ds.add(n[2][1])
                elif n[0] == 'addr' and n[1] == ('deref', v) and len(n[2]) == 1 and is_c(n[2][0][1]): ds.add(n[2][0][1][1])
                else: return None
        return ds.pop() if len(ds) == 1 else None

    def rec_of(self, ph, s):
        """the analysed loop whose entry facts hold in state s"""
        c = [r for r in self.recs.get(ph[1], ()) if any(all(s.facts.get(t) == x for t, x in h.facts.items()) for h, _, _ in r['iters'])]
        return c[0] if c else None

    def entry(self, rec, ph, s):
        vs = {e.load(ph[2], ph[3]) for e in rec['entry'] if all(s.facts.get(t, x) == x for t, x in e.facts.items())}
        return next(iter(vs)) if len(vs) == 1 else None

    def step(self, rec, ph):
        ds = set()
        for h, bs, _ in rec['iters']:
            for b in bs:
                try: c, k = lin_add(self.lin(b.load(ph[2], ph[3])), self.lin(ph), -1)
                except NonLinear: return None
                if any(c.values()): return None
                ds.add(k)
        return ds

    # -- inductive bounds from the loop condition: what the guard of a pass leaves true, one step on
    def inductive(self, rec):
        key = id(rec)
        if key in self.inv: return self.inv[key]
        self.inv[key] = []
        cand = []
        for h, bs, _ in rec['iters']:
            for b in bs:
                for t, v in b.facts.items():
                    if t[0] != 'op' or t[1] not in ('<', '==') or (t[1] == '==' and v): continue
                    if not any(x[0] == 'phi' and x[1] == rec['lid'] for x in subterms(t)): continue
                    try: d = lin_add(self.lin(t[3]), self.lin(t[2]), -1)
                    except NonLinear: continue
                    r = lin_add(({}, 0), d, -1)
                    new = [d] if t[1] == '<' and v else [(r[0], r[1] + 1)] if t[1] == '<' else [d, r]
                    cand += [x for x in new if x not in cand]
        good = []
        for c in cand[:12]:
            ph = [a for a in c[0] if a[0] == 'phi' and a[1] == rec['lid']]
            if not ph: continue
            def image(s):
                r = ({a: v for a, v in c[0].items() if a not in ph}, c[1])
                for a in ph: r = lin_add(r, self.lin(s.load(a[2], a[3])), c[0][a])
                return r
            try:
                ok = True
                for s, extra in [(e, []) for e in rec['entry']] + [(b, [c]) for _, bs, _ in rec['iters'] for b in bs]:
                    im = image(s)
                    bad = lin_add(({}, -1), im, -1)
                    fs, ne = self.facts(s)
                    for d in ne:                # a value that is bounded by the hypothesis and differs from the bound lies inside
                        for x in (d, lin_add(({}, 0), d, -1)):
                            if any(x == y for y in extra): fs = fs + [(x[0], x[1] - 1)]
                    if poly.point(self.closure(s, fs + extra + [bad])) is not None: ok = False; break
            except NonLinear: ok = False
            if ok: good.append(c)
        self.inv[key] = good
        return good

    # -- the polyhedron of a state
    def closure(self, s, cs):
        """ranges of inputs and loop invariants for all atoms that occur"""
        done, heads = set(), set()
        out = list(cs)
        while True:
            todo = {a for c, _ in out for a in c} - done
            if not todo: return out
            for a in todo:
                done.add(a)
                if a[0] == 'passes': out.append(({a: 1}, 0)); continue
                if a[0] == 'call' and a[1].split('::')[-1] == GENERATOR:
                    K = self.K
                    out += [({a: 1}, -DIGITS[0]), ({a: -1}, DIGITS[1]), ({a: 1, K: 1}, -1 - EXPONENT[0]), ({a: -1, K: -1}, 1 + EXPONENT[1])]
                elif a in self.prms:
                    lo, hi = self.prms[a]
                    out += [({a: 1}, -lo), ({a: -1}, hi)]
                elif a[0] == 'phi':
                    rec = self.rec_of(a, s)
                    if not rec: continue
                    e, ds = self.entry(rec, a, s), self.step(rec, a)
                    if rec['lid'] not in heads:
                        heads.add(rec['lid'])
                        out += self.inductive(rec)
                    if e is None or not ds: continue
                    try: e = self.lin(e)
                    except NonLinear: continue
                    d = lin_add(({a: 1}, 0), e, -1)
                    if len(ds) == 1:
                        d = lin_add(d, ({('passes', a[1]): 1}, 0), -next(iter(ds)))
                        out += [d, lin_add(({}, 0), d, -1)]
                    elif all(x >= 0 for x in ds): out.append(d)
                    elif all(x <= 0 for x in ds): out.append(lin_add(({}, 0), d, -1))

    def facts(self, s):
        out, ne, left = [], [], 0
        for t, v in s.facts.items():
            if t[0] == 'val' or t[0] != 'op': continue
            try:
                if t[1] == '<':
                    d = lin_add(self.lin(t[3]), self.lin(t[2]), -1)
                    out.append((d[0], d[1] - 1) if v else lin_add(({}, 0), d, -1))
                elif t[1] == '==':
                    d = lin_add(self.lin(t[3]), self.lin(t[2]), -1)
                    if v: out += [d, lin_add(({}, 0), d, -1)]
                    else: ne.append(d)
            except NonLinear:
                left += 1
        return out, ne

    def outside(self, s, bad):
        """an integer point of state s that satisfies one of the constraint lists in bad; None: there is none; False: unknown"""
        fs, ne = self.facts(s)
        res = None
        for b in bad:
            cs = self.closure(s, fs + b)
            p = poly.point(cs)
            if p:
                for d in ne:
                    if all(a in p for a in d[0]) and sum(v * p[a] for a, v in d[0].items()) + d[1] == 0: p = False; break
            if p: return p
            if p is False: res = False
        return res


def element_count(p, root, cache={}):
    """number of elements of the local array root"""
    key = (id(p), root[2:])
    if key not in cache:
        n = {x['n_el'] for f in p.funcs.values() for x in walk(f.get('b') or []) if x.get('k') == 'var' and x.get('id') == root[2] and x.get('n') == root[3] and x.get('n_el')}
        cache[key] = min(n) if n else None
    return cache[key]


@rule('P32', DOM + "Domain for the offsets: convex polyhedra over the digit count, the decimal exponent, the precision and the pass counters of the loops (emptiness by elimination).")
def p32(cx):
    p = cx.p
    fn = p.find(ROOT)
    acc = []

    def on_call(E, s, ci):
        n = (ci.name or '').split('::')[-1]
        if n in ('memcpy', 'memset', 'memmove') and len(ci.args) == 3 and not ci.targets_project:
            acc.append(('store', s.copy(), ci.args[0], ci.args[2], ci.node, ci.frame.fn))
            if n != 'memset': acc.append(('load', s.copy(), ci.args[1], ci.args[2], ci.node, ci.frame.fn))
            return [(s, ci.args[0])]
        if n in ('strlen', 'strcpy', 'strcat', 'sprintf', 'strncpy'):
            cx.undecided.append(('P32', n, cx.at(ci.frame.fn, ci.node)))
        return None

    def at(kind):
        def go(E, s, lv, v, e, fr):
            if lv.path and isinstance(lv.path[-1], tuple) and lv.path[-1][0] == '[]' or lv.root[0] == 'deref' and not lv.path:
                acc.append((kind, s.copy(), ('addr', lv.root, lv.path), C(1), e, fr.fn))
        return go

    names = {f['q'] for f in p.funcs.values() if f['q'].split('::')[-1] == GENERATOR}
    if not names: cx.undecided.append(('P32', 'no digit generator', '')); return
    E = Engine(p, nomerge=True, on_call=wrap(p, on_call), on_store=at('store'), on_load=at('load'), inline_if=lambda f: f['q'] not in names)
    E.run(fn, State(mon=()), args={q['n']: arg(i) for i, q in enumerate(fn['p'])})
    cx.funcs.add(fn['q'])
    prms = {arg(i): RANGES[q['ty'].replace('const ', '')] for i, q in enumerate(fn['p']) if q['ty'].replace('const ', '') in RANGES}
    sh = Shape(cx, E, prms)
    outs = {x for _, s, pv, n, _, _ in acc for t in (pv, n, *s.facts) for x in subterms(t) if x[0] == 'out' and x[1].split('::')[-1] == GENERATOR}
    if len(outs) != 1: cx.undecided.append(('P32', 'exponent of the digit generator not recognised', str(len(outs)))); return
    sh.K = next(iter(outs))
    seen = {}
    for kind, s, pv, n, node, f in acc:
        try:
            root, off = sh.ptr(pv, s)
            ln = sh.lin(n)
        except NonLinear as e:
            cx.undecided.append(('P32', 'offset not linear', cx.at(f, node) + ' ' + show(pv)[:120]))
            continue
        if root[0] != 'v': continue
        size = element_count(p, root)
        if size is None: continue
        key = (id(node), f['q'], kind)
        # outside: offset < 0, or length < 0, or offset + length > size (an empty transfer is fine)
        end = lin_add(off, ln)
        bad = [[(lin_add(({}, -1), off, -1)), (ln[0], ln[1] - 1)], [lin_add(({}, -1), ln, -1)], [(end[0], end[1] - size - 1), (ln[0], ln[1] - 1)]]
        w = sh.outside(s, bad)
        r = seen.setdefault(key, [node, f, root, size, 0, None, False])
        r[4] += 1
        if w and not r[5]: r[5] = w
        elif w is False: r[6] = True
    for node, f, root, size, k, w, un in seen.values():
        if un and not w: cx.undecided.append(('P32', 'no bound found', cx.at(f, node)))
        cx.ob(not w, 'bounds', f, "access to %s stays inside its %d elements" % (root[3], size), node=node, detail=w and witness_text(w, sh))
    cx.counts['accesses'] = len(seen)
    cx.counts['access paths'] = sum(r[4] for r in seen.values())
    cx.need(len(seen), 3, 'buffer accesses')


def witness_text(w, sh):
    return ', '.join("%s = %d" % ('exponent' if a == sh.K else 'digits' if a[0] == 'call' else 'passes' if a[0] == 'passes' else show(a), v) for a, v in sorted(w.items(), key=str) if a != '')


def wrap(p, f):
    """the project's own wrappers around memcpy are inlined, the library ones recorded"""
    def go(E, s, ci):
        fns = getattr(ci, 'targets', None) or []
        ci.targets_project = any(t.get('b') for t in fns if isinstance(t, dict))
        return f(E, s, ci)
    return go
