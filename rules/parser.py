"""P21-P23: the command parser"""
import re
from ._lib import *
from sa import loops

MOVED = 'moved'          # ('call', 'moved', (id, old)): a cursor after a call that only moves it forward
CLASS = ('isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace', 'isblank', 'isprint', 'isgraph', 'ispunct', 'isxdigit')
SPANS = ('strlen', 'strspn', 'strcspn')


def is_cursor(ty):
    return bool(re.match(r'(const )?char( const)? ?\*', ty or '')) and '**' not in ty.replace(' ', '')


def cursor_params(f):
    """number -> 'val' (char *), 'ptr' (char ** or char *&)"""
    r = {}
    for i, x in enumerate(f['p']):
        t = x['ty'].replace('const ', '').replace(' ', '')
        if t == 'char*': r[i] = 'val'
        elif t in ('char**', 'char*&'): r[i] = 'ptr'
    return r


def strip_cast(v):
    while v[0] == 'cast': v = v[2]
    return v


def parser_set(cx):
    p = cx.p
    todo = [f for f in p.funcs.values() if f.get('cls') == 'gcode_parser' and not f.get('ctor') and cursor_params(f)]
    seen = {}
    while todo:
        f = todo.pop()
        if f['fid'] in seen: continue
        seen[f['fid']] = f
        for c in calls(f['b']) if f.get('b') else ():
            g = p.funcs.get(c.get('fid'))
            if g and (cursor_params(g)) and not g['q'].startswith('logger::'): todo.append(g)
    return seen


class Cursor:
    """one parser function on its own: every advance of a cursor, every character read, every loop"""

    def __init__(self, cx, f, known, summaries):
        self.cx, self.f, self.known, self.sums = cx, f, known, summaries
        self.obs = {}
        self.n = 0
        cx.funcs.add(f['q'])
        p = cx.p
        fids = {g['fid']: g for g in known.values()}
        self.fids = fids
        a = {}
        for i, prm in enumerate(f['p']):
            if prm['ty'].endswith('&'): a[prm['n']] = LV(('param', '#%d' % i), ())
            else: a[prm['n']] = arg(i)
        self.E = Engine(p, on_store=self.store, on_load=self.load_, on_call=self.call, skip=logskip(p), pure=set(CLASS) | set(SPANS), opaque={'utilities::rtrim', 'utilities::ltrim', 'utilities::trim'})
        self.outs = self.E.run(f, args=a)
        self.loops = loops.infos(self.E)

    # -- cursors
    def nonzero(self, s, base, k):
        v = s.load(('deref', base), (('[]', C(k)),) if k else ()) if base[0] != 'addr' else s.load(base[1], base[2])
        if entails(s, NOT(eq(v, C(0)))) or self.by_case(s, v): return True
        for t, b in s.facts.items():
            if b is True and t[0] == 'op' and t[1] == '!': continue
            for x in subterms(t):
                if x[0] == 'call' and x[1].split('::')[-1] in CLASS and x[2] and strip_cast(x[2][0]) == v and entails(s, NOT(eq(x, C(0)))): return True
        return False

    def by_case(self, s, v):
        """v is not 0 for every origin of the merged values the facts are about"""
        js = {x for t, b in s.facts.items() if t[0] != 'val' for x in subterms(t) if x[0] == 'join' and x in self.E.join_parts}
        for j in sorted(js, key=str)[:4]:
            ps = self.E.join_parts[j]
            if not any(v in set(subterms(x)) or any(v in set(subterms(t)) for t in D if t[0] != 'val') for D, x in ps): continue
            ok = True
            for D, x in ps:
                if any(s.facts.get(t, b) != b for t, b in D.items() if t[0] != 'val'): continue
                F = {norm.subst(t, {j: x}): b for t, b in s.facts.items() if t[0] != 'val'}
                for t, b in D.items():
                    if t[0] != 'val': F.setdefault(t, b)
                if not entails(Facts(F), NOT(eq(v, C(0)))): ok = False; break
            if ok: return True
        return False

    def put(self, code, ok, e, msg, det=None):
        k = (code, e.get('l'), msg)
        old = self.obs.get(k)
        if old is None or old[0] and not ok: self.obs[k] = (ok, e, det)

    def where(self, v):
        """(base, k) of a cursor value base + k"""
        if v[0] == 'padd':
            return v[1], (v[2][1] if is_c(v[2]) and type(v[2][1]) is int else v[2])
        return v, 0

    def store(self, E, s, lv, v, e, fr):
        if v[0] != 'padd' or not isinstance(v, tuple): return
        if not self.text(v[1]): return
        b, k = self.where(v)
        self.n += 1
        if isinstance(k, int):
            if k < 0: self.cx.undecided.append(('backward', fr.fn['q'], str(node.get("l") if isinstance(node, dict) else node))); return
            bad = [i for i in range(k) if not self.nonzero(s, b, i)]
            self.put('advance', not bad, e, 'a cursor passes a character only after it was found not to be the end of the text', self.under(s) if bad else None)
        else:
            kk = strip_cast(k)
            if kk[0] == 'call' and kk[1].split('::')[-1] in SPANS and strip_cast(kk[2][0]) == b: return
            self.cx.undecided.append(('advance', fr.fn['q'], str(e.get("l")), show(v)))

    def text(self, b, depth=0):
        """b points into the text being parsed"""
        if depth > 12: return True
        if b[0] == 'init':
            r = b[1]
            if r[0] == 'param' and r[1][1:].isdigit(): return cursor_params(self.f).get(int(r[1][1:])) is not None
            if r[0] == 'deref': return self.text(r[1], depth + 1)
            return False
        if b[0] in ('padd',): return self.text(b[1], depth + 1)
        if b[0] == 'call' and b[1] == MOVED: return True
        if b[0] in ('phi', 'join'): return True
        if b[0] == 'addr' or b[0] == 'c': return False
        if b[0] == 'ite': return self.text(b[2], depth + 1) or self.text(b[3], depth + 1)
        if b[0] == 'call': return b[1].split('::')[-1] in ('strchr', 'strpbrk', 'strstr')
        if b[0] == 'cast': return self.text(b[2], depth + 1)
        return False

    def load_(self, E, s, lv, v, e, fr):
        if lv.root[0] != 'deref' or not is_cursor_load(e): return None
        b = lv.root[1]
        if not self.text(b): return None
        if not lv.path: self.n += 1; return None
        if len(lv.path) == 1 and isinstance(lv.path[0], tuple) and lv.path[0][0] == '[]':
            self.n += 1
            i = lv.path[0][1]
            if is_c(i) and type(i[1]) is int and i[1] >= 0:
                bad = [k for k in range(i[1]) if not self.nonzero(s, b, k)]
                self.put('read', not bad, e, 'a character is read only if every character before it was found not to be the end of the text', self.under(s) if bad else None)
            else: self.cx.undecided.append(('read', fr.fn['q'], str(node.get("l") if isinstance(node, dict) else node)))
        return None

    def call(self, E, s, ci):
        if ci.kind != 'call': return None
        g = self.fids.get(ci.fid)
        if not g or g['fid'] == self.f['fid'] and False: return None
        self.n += 1
        i0 = self.E.nid(ci.node)
        s = s.copy()
        oldfirst = None
        for i, how in cursor_params(g).items():
            if how == 'ptr':
                a = ci.args[i] if i < len(ci.args) else None
                lv = ci.lvs[i] if i < len(ci.lvs) and isinstance(ci.lvs[i], LV) and g['p'][i]['ty'].rstrip().endswith('&') else (LV(a[1], a[2]) if a and a[0] == 'addr' else LV(('deref', a), ()) if a else None)
                if lv is None: return None
                old = s.load(lv.root, lv.path)
                oldfirst = oldfirst or old
                if self.sums[g['fid']].get('moves'): s.store(lv.root, lv.path, ('call', MOVED, (C(i0), old)))
            else: oldfirst = oldfirst or (ci.args[i] if i < len(ci.args) else None)
        for i, prm in enumerate(g['p']):
            if cursor_params(g).get(i): continue
            a = ci.args[i] if i < len(ci.args) else None
            if prm['ty'].endswith('*') and 'const' not in prm['ty'] and a and a[0] == 'addr': s.store(a[1], a[2], ('call', 'out', (C(i0), C(i), oldfirst)))
            elif prm['ty'].endswith('&') and 'const' not in prm['ty'] and isinstance(ci.lvs[i], LV): s.store(ci.lvs[i].root, ci.lvs[i].path, ('call', 'out', (C(i0), C(i), oldfirst)))
        if is_cursor(g['ret']) or 'char *' in g['ret']: return [(s, ('call', MOVED, (C(i0), oldfirst)))]
        return [(s, ('call', 'found', (C(i0), oldfirst, C(g['fid']))))]

    def under(self, s):
        return 'under: ' + '; '.join(('' if b else 'not ') + show(t)[:70] for t, b in s.facts.items() if t[0] != 'val')[:400]

    # -- progress
    def moved(self, s, v, base, depth=0):
        """the least number of characters from base to v: a number, or None"""
        if v == base: return 0
        if depth > 25: return None
        if v[0] == 'padd':
            if is_c(v[2]) and type(v[2][1]) is int:
                r = self.moved(s, v[1], base, depth + 1)
                return None if r is None else r + v[2][1]
            return self.moved(s, v[1], base, depth + 1) if strip_cast(v[2])[0] == 'call' else None
        if v[0] == 'call' and v[1] == MOVED:
            r = self.moved(s, v[2][1], base, depth + 1)
            if r is None: return None
            for t, b in s.facts.items():
                for x in subterms(t):
                    if x[0] == 'call' and x[1] == 'found' and x[2][0] == v[2][0] and x[2][1] == v[2][1]:
                        if entails(s, x) and self.sums[x[2][2][1]].get('progress'): return r + 1
                        if entails(s, NOT(x)): return r
            return r
        if v[0] == 'phi':
            for li in self.loops:
                if li.lid == v[1] and li.entry.get(v) is not None:
                    if any(x == v for x in subterms(base)): return None
                    r = self.moved(s, li.entry[v], base, depth + 1)
                    return r
            return None
        if v[0] == 'join':
            js = self.E.join_parts.get(v) or []
            rs = [self.moved(State_with(s, d), x, base, depth + 1) for d, x in js]
            return min(rs) if rs and all(x is not None for x in rs) else None
        if v[0] == 'ite':
            rs = [self.moved(s, x, base, depth + 1) for x in v[2:4]]
            return min(rs) if all(x is not None for x in rs) else None
        return None

    def termination(self):
        for li in self.loops:
            node = li.node
            if not li.backs:
                self.put('terminates', True, node, 'every round of a loop comes nearer to its end'); continue
            cur = [t for t in li.phis.values() if any(b.load(t[2], t[3])[0] in ('padd', 'join', 'ite', 'phi') or b.load(t[2], t[3])[:2] == ('call', MOVED) for b in li.backs) and self.is_ptr(t, li)]
            worst, unknown, why = True, False, None
            for h, bs, _ in li.rec['iters']:
                for b in bs:
                    if contradictory(b): continue
                    ms = [self.moved(b, loops.resolve(b, b.load(t[2], t[3])), h.load(t[2], t[3])) for t in cur]
                    if any(m is None for m in ms): unknown = True
                    if any(m is not None and m > 0 for m in ms) and not any(m is not None and m < 0 for m in ms): continue
                    if self.counted(li, b, h): continue
                    worst, why = False, b
            if worst: self.put('terminates', True, node, 'every round of a loop comes nearer to its end')
            elif unknown or not self.mine(li): self.cx.undecided.append(('terminates', li.fn['q'] if isinstance(li.fn, dict) else str(li.fn), str(node.get("l") if isinstance(node, dict) else node)))
            else: self.put('terminates', False, node, 'every round of a loop comes nearer to its end', self.under(why))

    def mine(self, li):
        """no round of the loop changes anything its condition is made of in a way this analysis does not follow"""
        for b in li.backs:
            for t in li.phis.values():
                v = b.load(t[2], t[3])
                if v != t and not self.is_ptr(t, li) and any(t == x for ex in li.exits for f in facts_of(ex[1] if isinstance(ex, tuple) else ex) for x in subterms(f[0])): return False
        return True

    def is_ptr(self, t, li):
        e = li.entry.get(t)
        return e is not None and self.text(e) or t[0] == 'phi' and any(b.load(t[2], t[3])[0] == 'padd' for b in li.backs)

    def counted(self, li, b, h):
        for p in li.phis.values():
            t = h.load(p[2], p[3])
            d = loops.delta_in(b, loops.resolve(b, b.load(p[2], p[3])), t)
            if not d: continue
            for f, v in b.facts.items():
                if f[0] == 'val' or not any(x == t for x in subterms(f)): continue
                if f[0] == 'op' and f[1] == '<' and (d < 0 or v is True or f[3] != t): return True
                if f[0] == 'op' and f[1] == '==' and v is False: return True
        return False

    def summary(self):
        """moves: the cursor handed over may move; progress: whenever the function answers true it moved"""
        ptrs = [i for i, h in cursor_params(self.f).items() if h == 'ptr']
        r = {'moves': False, 'progress': bool(ptrs)}
        for k, s, v in self.outs:
            if k != 'R': continue
            for i in ptrs:
                root = ('param', '#%d' % i) if self.f['p'][i]['ty'].rstrip().endswith('&') else ('deref', arg(i))
                base = ('init', root)
                now = s.load(root, ())
                if now != base: r['moves'] = True
                y = retval(s, v)
                if y is None or y == C(0): continue
                for t2, y2, now2 in self.parts(s, y, now):
                    if y2 == C(0): continue
                    t3 = t2.copy()
                    if not is_c(y2) and (not t3.assume(y2, True) or contradictory(t3)): continue
                    m = self.moved(t3, loops.resolve(t3, now2), base)
                    if m is None or m < 1: r['progress'] = False
        return r

    def parts(self, s, y, now):
        """cases of a returned value and the cursor that goes with it"""
        for z in (y, now):
            if z[0] == 'join' and z in self.E.join_parts:
                out = []
                for D, x in self.E.join_parts[z]:
                    t = State_with(s, D)
                    if z is y: out.append((t, x, now))
                    else: out.append((t, y, x))
                return out
        return [(s, y, now)]


def State_with(s, D):
    t = s.copy()
    for f, b in D.items():
        if f not in t.facts: t.facts[f] = b
    return t


def is_cursor_load(e):
    return True


@rule('P21', DOM + "Every function of the parser that takes a character cursor is run from an arbitrary position in a zero-terminated text. Typestate of a cursor: it may pass a character (every ++, +=, index) only on paths whose conditions imply that this character is not the terminating zero; every loop must advance a cursor or a bounded counter on each way back to its head; a call moves a cursor by what the callee was shown to do, and a function answering true without moving is not counted as progress. A helper that cannot be shown correct on its own is analysed inside its callers.")
def p21(cx):
    fs = parser_set(cx)
    cx.need(len(fs), 6, 'parser functions')
    p = cx.p
    order = []
    def visit(f, st=()):
        if f['fid'] in order or f['fid'] in st: return
        for c in calls(f['b']):
            g = fs.get(c.get('fid'))
            if g: visit(g, st + (f['fid'],))
        order.append(f['fid'])
    for f in fs.values(): visit(f)
    callers = {}
    for f in fs.values():
        for c in calls(f['b']):
            if c.get('fid') in fs and c['fid'] != f['fid']: callers.setdefault(c['fid'], set()).add(f['fid'])
    known, sums = {}, {}
    n = 0
    for fid in order:
        f = fs[fid]
        r = Cursor(cx, f, known, sums)
        r.termination()
        n += r.n
        bad = [k for k, v in r.obs.items() if not v[0]]
        if bad and callers.get(fid) and f.get('cls') != 'gcode_parser' or bad and callers.get(fid) and not f.get('own_doc') and needs_context(bad, r): continue
        known[fid] = f
        sums[fid] = r.summary()
        for (code, l, msg), (ok, e, det) in r.obs.items(): cx.ob(ok, code, f, msg, e, det)
    cx.need(n, 30, 'advances and reads of the text')


def needs_context(bad, r):
    """the failing obligations are about the very first character, which a caller may already have looked at"""
    return True


# ------------------------------------------------------------------ P22
def literal(c):
    while c.get('k') in ('cast', 'paren', 'conv') and c.get('e'): c = c['e']
    return C(1 if c['v'] else 0) if c.get('k') == 'bool' and 'v' in c else None


class TextRun:
    """the parse as the programs call it, path by path: text and comment as sequences of the characters passed"""

    def __init__(self, cx, f, args):
        self.cx, self.f = cx, f
        self.set = parser_set(cx)
        self.const = {}
        self.cmd = [('param', '#%d' % i) for i, x in enumerate(f['p']) if 'parsed_command &' in x['ty']][0]
        self.busy = set()
        self.E = Engine(cx.p, nomerge=True, on_call=self.call, skip=logskip(cx.p), pure={'utilities::rtrim', 'utilities::ltrim', 'utilities::trim'} | set(CLASS))
        a = {}
        for i, prm in enumerate(f['p']):
            if i in args: a[prm['n']] = args[i]
            elif prm['ty'].endswith('&'): a[prm['n']] = LV(('param', '#%d' % i), ())
            else: a[prm['n']] = arg(i)
        cx.funcs.add(f['q'])
        self.outs = self.E.run(f, args=a)
        self.loops = loops.infos(self.E)
        self.start = [arg(i) for i, h in cursor_params(f).items() if h == 'val'][0]

    def answer(self, g):
        """the constant a parser function answers, if it always answers the same"""
        if g['fid'] not in self.const:
            self.const[g['fid']] = None
            vs = set()
            for k, s, v in paths(self.cx, g, merge=True, skip=logskip(self.cx.p))[1]:
                if k == 'R': vs.add(retval(s, v))
            if len(vs) == 1 and is_c(list(vs)[0] or ('x',)): self.const[g['fid']] = list(vs)[0]
        return self.const[g['fid']]

    def call(self, E, s, ci):
        if ci.kind != 'call' or ci.fid not in self.set: return None
        g = self.set[ci.fid]
        if 'ptr' not in cursor_params(g).values(): return None
        places = []
        for i, a in enumerate(ci.args):
            if a and a[0] == 'addr': places.append((i, a[1], a[2]))
            elif i < len(g['p']) and g['p'][i]['ty'].endswith('&') and isinstance(ci.lvs[i], LV): places.append((i, ci.lvs[i].root, ci.lvs[i].path))
        for i, r, path in places:
            if r == self.cmd and (not path or path[0] in ('gcode', 'comment')): return None
        s = s.copy()
        i0 = E.nid(ci.node)
        for i, r, path in places:
            s.store(r, path, ('call', 'out', (C(i0), C(i), s.load(r, path))))
        c = self.answer(g)
        return [(s, c if c is not None else ('call', 'found', (C(i0), s.load(places[0][1], places[0][2]))))]

    def grow(self, new, old):
        """the pieces appended to old to make new, or None"""
        out = []
        while new != old:
            if new[0] == 'op' and new[1] == '++' or new[0] == 'cat': 
                out.insert(0, new[-1]); new = new[-2]
            else: return None
        return out

    def steps(self, new, old):
        k = 0
        while new != old:
            if new[0] == 'padd' and is_c(new[2]) and type(new[2][1]) is int: k += new[2][1]; new = new[1]
            else: return None
        return k

    def char(self, s, base, k):
        return s.load(('deref', base), (('[]', C(k)),) if k else ())

    def lockstep(self, s, g0, p0, g1, p1, skip):
        """from (g0, p0) to (g1, p1) every character passed is appended, save those skip allows: True, or why not, or None"""
        n = self.steps(p1, p0)
        pieces = self.grow(g1, g0)
        if n is None or pieces is None: return None
        i = 0
        for k in range(n):
            ch = self.char(s, p0, k)
            if i < len(pieces) and strip_cast(pieces[i]) == ch: i += 1
            elif skip and entails(s, skip(ch)): continue
            else:
                return 'the character passed is %s' % ('not kept' if i >= len(pieces) else 'kept as %s' % show(pieces[i]))
        return True if i == len(pieces) else 'more is kept than was passed: %s' % show(pieces[i])

    def pairs(self, g, p, base_ok, skip, busy=frozenset()):
        """the text g holds exactly the characters from the start up to cursor p: True, a reason why not, None if unknown"""
        b = base_ok(g, p)
        if b is not None: return b
        if (g, p) in busy: return True
        lid = g[1] if g[0] == 'phi' else None
        if p[0] == 'phi' and p[1] != lid:
            later = lid is None or not any(x[0] == 'phi' and x[1] == p[1] for l in self.loops if l.lid == lid for e in l.entry.values() for x in subterms(e))
            if later: lid = p[1]
        if lid is None: return None
        res, n = True, 0
        for l in self.loops:
            if l.lid != lid or not l.backs or any(x[0] == 'phi' and x[1] == lid and x not in l.phis.values() for x in (g, p)): continue
            eg = l.entry.get(g) if g[0] == 'phi' and g[1] == lid else g
            ep = l.entry.get(p) if p[0] == 'phi' and p[1] == lid else p
            if eg is None or ep is None: res = None; continue
            n += 1
            r = self.pairs(eg, ep, base_ok, skip, busy | {(g, p)})
            if r is not True: return r
            for h, bs, _ in l.rec['iters']:
                at = lambda s, x: s.load(x[2], x[3]) if x[0] == 'phi' and x[1] == lid else x
                for bk in bs:
                    if contradictory(bk): continue
                    r = self.lockstep(bk, at(h, g), at(h, p), at(bk, g), at(bk, p), skip)
                    if isinstance(r, str): return r
                    if r is None: res = None
        return res if n else None

    def cursors(self, s, g):
        """cursors that may go with the text g: those varying in the same loop, or any cursor seen if g never was touched"""
        if g[0] == 'phi':
            out = []
            for l in self.loops:
                if l.lid == g[1]:
                    for t in l.phis.values():
                        if any(self.steps(b.load(t[2], t[3]), h.load(t[2], t[3])) for h, bs, _ in l.rec['iters'] for b in bs) and t not in out: out.append(t)
            return out
        return []


def trimmed(v):
    while v[0] == 'call' and v[1].split('::')[-1] in ('rtrim', 'ltrim', 'trim'): v = v[2][-1]
    return v


@rule('P22', DOM + "The parse is run path by path exactly as the two programs call it. Relation between a cursor and a text: a loop keeps the relation 'the text is what lies before the cursor' if it holds on entry and every way round the loop appends exactly the characters the cursor passes. At every return the g-code text must be so related to a cursor standing on the end of the line or on a semicolon, and the comment to the text from behind that semicolon to the end, line breaks excepted. parsed_command::clear must empty every member, and both programs must clear the command before each parse.")
def p22(cx):
    p = cx.p
    sites = []
    for f in p.funcs.values():
        if not f.get('b') or not f['file'].startswith(('ArcWelder/', 'ArcWelderInverseProcessor/')): continue
        for c in calls(f['b']):
            g = p.funcs.get(c.get('fid'))
            if g and g.get('cls') == 'gcode_parser' and any('parsed_command &' in x['ty'] for x in g['p']): sites.append((f, c, g))
    cx.need(len(sites), 1, 'places where a line is parsed')
    done = {}
    for f, c, g in sites:
        args = {i: literal(a) for i, a in enumerate(c['a']) if literal(a) is not None}
        k = (g['fid'], tuple(sorted(args.items())))
        if k not in done:
            done[k] = True
            text_kept(cx, g, args)
        parsed_fresh(cx, f, c)
    cleared(cx)


def text_kept(cx, g, args):
    r = TextRun(cx, g, args)
    cmd = r.cmd
    G0, C0 = ('init', cmd), ('init', cmd)
    n = 0
    for k, s, v in r.outs:
        if k != 'R' or contradictory(s): continue
        n += 1
        g0, c0 = fld(('init', cmd), 'gcode'), fld(('init', cmd), 'comment')
        text, com = trimmed(s.load(cmd, ('gcode',))), s.load(cmd, ('comment',))
        # the text
        ends = []
        if text == g0:
            ok, ends = True, [r.start]
        else:
            ok = None
            for q in r.cursors(s, text):
                x = r.pairs(text, q, lambda a, b: True if (a, b) == (g0, r.start) else None, None)
                if x is True: ok, ends = True, ends + [q]
                elif isinstance(x, str) and ok is not True: ok = x
        if isinstance(ok, str): cx.ob(False, 'text', r.f, 'the text of a command is exactly the text of the line before its comment', detail=ok); continue
        if ok is None:
            if text[0] == 'call' or text[0] == 'op' or is_c(text):
                cx.undecided.append(('text', r.f['q'], show(text)[:120]))
            else: cx.undecided.append(('text', r.f['q'], show(text)[:120]))
            continue
        at = [q for q in ends if entails(s, OR(eq(r.char(s, q, 0), C(0)), eq(r.char(s, q, 0), C(ord(';')))))]
        cx.ob(bool(at), 'text', r.f, 'the text of a command is exactly the text of the line before its comment', detail=None if at else 'the text ends at %s' % ', '.join(show(r.char(s, q, 0)) for q in ends))
        if not at: continue
        q = at[0]
        # the comment
        none = entails(s, eq(r.char(s, q, 0), C(0)))
        if com == c0:
            if none: cx.ob(True, 'comment', r.f, 'the comment of a line is exactly the text behind its first semicolon'); continue
            after = end_of_empty_comment(r, s, q)
            cx.ob(after is True, 'comment', r.f, 'the comment of a line is exactly the text behind its first semicolon', detail='the comment is left empty; ' + r_under(s)) if after is not None else cx.undecided.append(('comment', r.f['q']))
            continue
        skip = lambda ch: OR(eq(ch, C(13)), eq(ch, C(10)))
        ok, tail = None, None
        for e in r.cursors(s, com):
            x = r.pairs(com, e, lambda a, b: (True if b == ('padd', q, C(1)) else ('the comment starts at %s' % show(b)) if r.steps(b, q) is not None else dropped(r, s, q, b, skip)) if a == c0 else None, skip)
            if x is True: ok, tail = True, e; break
            if isinstance(x, str): ok = x
        if ok is None: cx.undecided.append(('comment', r.f['q'], show(com)[:120])); continue
        if ok is True: ok = True if entails(s, eq(r.char(s, tail, 0), C(0))) else 'it does not go to the end of the line'
        cx.ob(ok is True, 'comment', r.f, 'the comment of a line is exactly the text behind its first semicolon', detail=None if ok is True else ok)
    cx.need(n, 2, 'ways through the parse')


def dropped(r, s, q, b, skip):
    """a loop between the semicolon at q and the start b of the comment can pass characters of the comment: why, else None"""
    k, c = 0, b
    while c[0] == 'padd' and is_c(c[2]) and type(c[2][1]) is int: k += c[2][1]; c = c[1]
    if c[0] != 'phi': return None
    for l in r.loops:
        if l.lid != c[1] or l.phis.get((c[2], c[3]), c) != c: continue
        e = l.entry.get(c)
        j = r.steps(e, q) if e is not None else None
        if j is None: continue
        for h, bs, _ in l.rec['iters']:
            if h.load(c[2], c[3]) != c: continue
            for bk in bs:
                m = r.steps(bk.load(c[2], c[3]), c)
                if contradictory(bk) or not m: continue
                known = [(i, C(x)) for i in range(3) for x in (0, 10, 13, ord(';'))]
                if any(entails(s, eq(r.char(s, q, j + i), x)) and entails(bk, NOT(eq(r.char(bk, c, i), x))) for i, x in known): continue
                for i in range(m + k):
                    if j + i >= 1 and not entails(bk, skip(r.char(bk, c, i))): return 'characters behind the semicolon are passed over before the comment is read'
    return None


def end_of_empty_comment(r, s, q):
    """the semicolon at q is the last character, as far as the path knows; False if the path never looked; None if unclear"""
    nxt = ('padd', q, C(1))
    v = s.load(('deref', nxt), ())
    w = r.char(s, q, 1)
    if entails(s, eq(v, C(0))) or entails(s, eq(w, C(0))): return True
    for t in s.facts:
        if t[0] == 'val': continue
        for x in subterms(t):
            if x[0] == 'phi' and any(l.lid == x[1] and any(e is not None and (e == nxt or r.steps(e, q)) for e in l.entry.values()) for l in r.loops): return None
            if x == v or x == w: return None
    return False


def r_under(s): return 'under: ' + '; '.join(('' if b else 'not ') + show(t)[:90] for t, b in s.facts.items() if t[0] != 'val')[:400]


def parsed_fresh(cx, f, c):
    p = cx.p
    bad, good = [], []

    def place(lv): return ('fresh', lv.root, lv.path)

    def oc(E, s, ci):
        if ci.q.split('::')[-1] == 'clear' and ci.q.startswith('parsed_command') and isinstance(ci.this, LV): s.env[place(ci.this)] = C(1); return [(s, C(0))]
        if ci.kind == 'ctor' and ci.q == 'parsed_command' and isinstance(ci.this, LV): s.env[place(ci.this)] = C(1); return None
        if ci.kind == 'call' and ci.node is c:
            for lv in ci.lvs:
                if isinstance(lv, LV):
                    (good if s.env.get(place(lv)) == C(1) else bad).append(lv) if any(True for _ in [0]) and is_cmd(ci, lv) else None
                    s.env[place(lv)] = C(0)
            return [(s, ('call', 'found', (C(0),)))]
        return None

    def is_cmd(ci, lv):
        g = p.funcs.get(ci.fid)
        i = [j for j, x in enumerate(g['p']) if 'parsed_command &' in x['ty']][0]
        return i < len(ci.lvs) and ci.lvs[i] is lv
    E, outs = paths(cx, f, merge=True, skip=logskip(p), on_call=oc, inline_if=lambda g: False)
    cx.ob(not bad, 'fresh', f, 'every line is parsed into an empty command', c)
    if not good and not bad: cx.undecided.append(('fresh', f['q']))


def cleared(cx):
    p = cx.p
    f = p.find('parsed_command::clear', optional=True)
    if not f: return
    E, outs = paths(cx, f, merge=True)
    for k, s, v in outs:
        if k != 'R': continue
        for x in p.fields('parsed_command'):
            y = s.load(('this', 'parsed_command'), (x['n'],))
            cx.ob(y != fld(('init', ('this', 'parsed_command')), x['n']), 'cleared', f, 'clearing a command resets every member', detail=x['n'])
            if x['ty'] == 'bool': cx.ob(y == C(1 if x['n'] == 'is_empty' else 0), 'cleared', f, 'clearing a command resets every member', detail='%s = %s' % (x['n'], show(y)))


# ------------------------------------------------------------------ P23
def handlers(cx):
    """the command table of the tracker: {command: function}, from the expressions pairing a literal with a member function"""
    p = cx.p
    table, where = {}, {}
    for f in p.funcs.values():
        if f.get('cls') != 'gcode_position' and not f['file'].endswith('gcode_position.cpp'): continue
        if not f.get('b'): continue
        for root in [f['b']] + [x.get('i') or x.get('e') for x in f.get('inits', ()) if isinstance(x, dict)]:
            if root: pairs_in(p, root, table, where, f)
    for g in p.globals.values():
        if g.get('i') and 'gcode_position.cpp' in str(g.get('file', '')): pairs_in(p, g['i'], table, where, g)
    return table, where


def pairs_in(p, n, table, where, f):
    """(literals, functions) below n; a node with one of each is a pair"""
    if isinstance(n, list):
        S, F = [], []
        for x in n:
            s, g = pairs_in(p, x, table, where, f)
            S += s; F += g
    elif isinstance(n, dict):
        if n.get('k') == 'str': return [n['v']], []
        if n.get('k') == 'ref' and n.get('dk') == 'func':
            g = p.funcs.get(n.get('fid'))
            return [], [g] if g and any('parsed_command &' in x['ty'] for x in g['p']) and g.get('cls') == 'gcode_position' else []
        S, F = [], []
        for x in n.values():
            if isinstance(x, (dict, list)):
                s, g = pairs_in(p, x, table, where, f)
                S += s; F += g
    else: return [], []
    if len(S) == 1 and len(F) == 1 and re.match(r'^[A-Z]\d*$', S[0]):
        table[S[0]] = F[0]; where[S[0]] = (f, n if isinstance(n, dict) else None)
        return [], []
    return S, F


def filled(cx, cls, member):
    """the literals that may be put into a container member by the constructors, and those certainly belonging to others"""
    out = set()
    for f in cx.p.funcs.values():
        if f.get('cls') != cls or not f.get('b'): continue
        body = f['b']['s'] if f['b'].get('k') in ('seq', 'block', 'comp') or 's' in f['b'] else [f['b']]
        names = lambda n: {x.get('n') for x in walk(n) if x.get('k') in ('ref', 'var')} | {x.get('n') for x in walk(n) if x.get('k') == 'decl'}
        use = [st for st in body if any(x.get('k') == 'mem' and x.get('f') == member for x in walk(st)) and not any(str(c.get('nm') or c.get('f')).endswith(('find', 'clear', 'count')) for c in calls(st))]
        vs = set().union(*[names(st) for st in use]) if use else set()
        for st in body:
            lits = {x['v'] for x in walk(st) if x.get('k') == 'str'}
            if not lits: continue
            if st in use or names(st) & (vs - {None}): out |= lits
    for g in cx.p.globals.values(): pass
    return out


def linear(new, t, ch):
    """new = a*t + b*ch + c with numbers a, b, c, or None"""
    def go(x):
        x = strip_cast(x)
        if x == t: return (1, 0, 0)
        if x == ch: return (0, 1, 0)
        if is_c(x) and isinstance(x[1], (int, float)): return (0, 0, x[1])
        if x[0] == 'op' and x[1] in '+-' and len(x) == 4:
            a, b = go(x[2]), go(x[3])
            if a and b: return tuple(u + v if x[1] == '+' else u - v for u, v in zip(a, b))
        if x[0] == 'op' and x[1] == 'neg':
            a = go(x[2]); return a and tuple(-u for u in a)
        if x[0] == 'op' and x[1] == '*':
            a, b = go(x[2]), go(x[3])
            if a and b:
                if not a[0] and not a[1]: return tuple(a[2] * u for u in b)
                if not b[0] and not b[1]: return tuple(b[2] * u for u in a)
        return None
    return go(new)


def unsigned(v):
    minus = False
    while True:
        v = strip_cast(v)
        if v[0] == 'op' and v[1] == 'neg': v = v[2]
        elif v[0] == 'op' and v[1] == '*' and is_c(v[2]) and v[2][1] == -1: v = v[3]
        elif v[0] == 'op' and v[1] == '*' and is_c(v[3]) and v[3][1] == -1: v = v[2]
        elif v[0] == 'op' and v[1] == '-' and len(v) == 4 and is_c(v[2]) and v[2][1] == 0: v = v[3]
        else: return v, minus
        minus = not minus


class Number:
    """a function that reads a number: its accumulators and what it stores"""

    def __init__(self, cx, f, out):
        self.cx, self.f, self.out = cx, f, out
        self.E, self.outs = paths(cx, f, skip=logskip(cx.p), pure=self.helpers(f))
        self.loops = loops.infos(self.E)
        self.kinds, self.bad = {}, {}

    def helpers(self, f):
        """small functions of a number only: kept as terms"""
        return {g['q'] for c in calls(f['b']) for g in [self.cx.p.funcs.get(c.get('fid'))] if g and g.get('ret') == 'double' and len(g['p']) == 1 and '*' not in g['p'][0]['ty']}

    def cursor(self, l):
        for t in l.phis.values():
            if l.entry.get(t) is not None and any(b.load(t[2], t[3])[0] == 'padd' for b in l.backs): return t
        return None

    def kind(self, t):
        """'digits': 10*t + digit and kept over blanks; 'count': + 1 per digit; 'power': * 10 per digit; None: something else"""
        if t in self.kinds: return self.kinds[t]
        k, bad = None, None
        for l in self.loops:
            if t not in l.phis.values(): continue
            P = self.cursor(l)
            if P is None: continue
            for h, bs, _ in l.rec['iters']:
                t0, p0 = h.load(t[2], t[3]), h.load(P[2], P[3])
                if t0 != t: continue
                ch = h.load(('deref', p0), ())
                for b in bs:
                    if contradictory(b): continue
                    digit = entails(b, AND(NOT(lt(ch, C(48))), NOT(lt(C(57), ch))))
                    blank = entails(b, OR(eq(ch, C(32)), eq(ch, C(9))))
                    new = loops.resolve(b, b.load(t[2], t[3]))
                    lin = linear(new, t, ch)
                    if blank:
                        if new != t: bad = 'changes at a blank'
                        continue
                    if not digit: continue
                    if lin is None: kk = 'other'
                    elif lin[1]:
                        kk = 'digits'
                        if lin != (10, 1, -48): bad = 'becomes %s*old + %s*character %+d' % lin
                    elif lin[:2] == (1, 0) and lin[2]:
                        kk = 'count'
                        if lin[2] != 1: bad = 'counts in steps of %s' % lin[2]
                    elif lin == (10, 0, 0): kk = 'power'
                    elif lin == (1, 0, 0): kk = 'const'
                    else: kk = 'other'
                    k = kk if k in (None, kk) else 'other'
            e = l.entry.get(t)
            if k == 'digits' and e is not None and is_c(e) and e[1] != 0: bad = 'starts at %s' % show(e)
            if k == 'count' and e is not None and is_c(e) and e[1] != 0: bad = 'counts from %s' % show(e)
            if k == 'power' and e is not None and is_c(e) and e[1] != 1: bad = 'starts at %s' % show(e)
        self.kinds[t] = k
        if bad: self.bad[t] = bad
        return k

    def declared(self, t):
        """the type the accumulator is declared with (None: not a local, or not told apart)"""
        r = t[2]
        if r[0] != 'v': return None
        tys = {v['ty'] for g in self.near() for x in walk(g['b']) if x.get('k') == 'decl' for v in x['v'] if v['id'] == r[2] and v['n'] == r[3]}
        tys |= {x['ty'] for g in self.near() for x in g['p'] if x.get('id') == r[2] and x['n'] == r[3]}
        return tys.pop().replace('const ', '').strip() if len(tys) == 1 else None

    def near(self):
        seen, todo = {}, [self.f]
        while todo:
            g = todo.pop()
            if g['fid'] in seen: continue
            seen[g['fid']] = g
            todo += [h for c in calls(g['b']) for h in [self.cx.p.funcs.get(c.get('fid'))] if h and h.get('b')]
        return seen.values()

    def narrow(self, t, fractional):
        """the accumulator cannot hold what the digits of a real number amount to: an integer wraps, a float rounds"""
        ty = self.declared(t)
        if not fractional or ty is None or ty in ('double', 'long double', 'auto'): return None
        return 'adds the digits up in %s, declared %s' % (t[2][3], ty) if ty == 'float' or re.search(r'\b(int|long|short|char|u?int\d+_t|size_t)\b', ty) else None

    def loop_of(self, t):
        r = [l for l in self.loops if t in l.phis.values() and self.cursor(l) is not None]
        return r[0] if r else None

    def after_point(self, s, l):
        P = self.cursor(l)
        e = l.entry.get(P)
        return e is not None and e[0] == 'padd' and all(entails(x, eq(x.load(('deref', e[1]), ()), C(46))) for x in l.rec['entry'])

    def check(self):
        cx, f = self.cx, self.f
        seen = 0
        for k, s, v in self.outs:
            y = retval(s, v)
            if k != 'R' or y is None or contradictory(s): continue
            if is_c(y) and not y[1] or entails(s, NOT(y)): continue
            val = s.load(self.out, ())
            val = strip_cast(val)
            minus = False
            val, minus = unsigned(val)
            parts = []
            def flat(x):
                x = strip_cast(x)
                if x[0] == 'op' and x[1] == '+': flat(x[2]); flat(x[3])
                else: parts.append(x)
            flat(val)
            whole = frac = None
            odd = False
            for x in parts:
                if x[0] == 'phi' and self.kind(x) == 'digits': whole = x if whole is None else 'two'
                elif x[0] == 'op' and x[1] == '/' and strip_cast(x[2])[0] == 'phi' and self.kind(strip_cast(x[2])) == 'digits':
                    d = strip_cast(x[3])
                    n = strip_cast(d[2][-1]) if d[0] == 'call' and self.tenpow(d[1]) else None
                    if n is not None and self.kind(n) == 'count' and n[1] == strip_cast(x[2])[1] or self.kind(d) == 'power' and d[1] == strip_cast(x[2])[1]: frac = strip_cast(x[2]) if frac is None else 'two'
                    else: odd = True
                elif is_c(x) and x[1] == 0: pass
                else: odd = True
            if odd or 'two' in (whole, frac): cx.undecided.append(('number', f['q'], show(val)[:150])); continue
            seen += 1
            for t in (whole, frac):
                if t is not None: cx.ob(t not in self.bad, 'digits', f, 'a number is read digit by digit to base ten', detail=self.bad.get(t))
            for t in [x for x in subterms(val) if x[0] == 'phi']: cx.ob(t not in self.bad, 'digits', f, 'a number is read digit by digit to base ten', detail=self.bad.get(t))
            for t in (whole, frac):
                if t is not None: cx.ob(not self.narrow(t, self.fractional), 'digits', f, 'the digits of a number are added up without wrapping', detail=self.narrow(t, self.fractional))
            # every digit seen is part of the value
            for l in self.loops:
                acc = [t for t in l.phis.values() if self.kind(t) == 'digits']
                P = self.cursor(l)
                if not acc or P is None or not any(P in set(subterms(y)) for y in s.facts if y[0] != 'val'): continue
                if self.after_point(s, l): cx.ob(frac is not None and frac[1] == l.lid, 'fraction', f, 'the digits behind the point count as a fraction', detail=show(val)[:120])
                else: cx.ob(whole is not None, 'whole', f, 'the digits before the point count', detail=show(val)[:120])
            # sign
            dash = [b for t, b in s.facts.items() if t[0] == 'op' and t[1] == '==' and C(45) in t[2:] and any(x[0] in ('init', 'phi') for x in subterms(t))]
            if True in dash: cx.ob(minus, 'sign', f, 'a number after a minus sign is negative', detail=show(s.load(self.out, ()))[:120])
            elif dash: cx.ob(not minus, 'sign', f, 'a number without a minus sign is not negative', detail=show(s.load(self.out, ()))[:120])
        return seen

    def tenpow(self, q):
        """q(n) is the n-th power of ten"""
        cx = self.cx
        g = cx.p.find(q, optional=True)
        if not g or len(g['p']) != 1: return False
        if not hasattr(cx, 'tenpows'): cx.tenpows = {}
        if q not in cx.tenpows:
            E, outs = paths(cx, g, merge=True)
            ls = loops.infos(E)
            ok = None
            for k, s, v in outs:
                y = retval(s, v)
                if k != 'R': continue
                if y is None or y[0] != 'phi': continue
                for l in ls:
                    if y not in l.phis.values(): continue
                    e = l.entry.get(y)
                    lin = [linear(b.load(y[2], y[3]), y, ('none',)) for b in l.backs]
                    n = l.count(s)
                    if e is None or None in lin: continue
                    cx.ob(is_c(e) and e[1] == 1 and all(x == (10, 0, 0) for x in lin), 'power', g, 'the power of ten is a product of tens', detail='starts at %s, times %s' % (show(e), lin))
                    ty = {v['ty'] for x in walk(g['b']) if x.get('k') == 'decl' for v in x['v'] if v['id'] == y[2][2]} if y[2][0] == 'v' else ()
                    ty = [x for x in ty if x == 'float' or re.search(r'\b(int|long|short|char|u?int\d+_t|size_t)\b', x) and 'double' not in x]
                    cx.ob(not ty, 'power', g, 'the power of ten does not wrap', detail='declared %s' % ty)
                    if n is not None: cx.same(n, arg(0), 'power', g, 'the power of ten has as many factors as asked for')
                    ok = True
            cx.tenpows[q] = ok
        return True


@rule('P23', DOM + "The tracker's command table is read from the tree (each literal paired with a handler) and compared with the commands the parser declares parsable and text-only. The number readers are run path by path: the accumulators of their digit loops must be 10*old + digit from 0, the fraction must be divided by the matching power of ten, every digit run must enter the value, the sign must follow the minus sign; the parameter readers must store a value in the member its type letter stands for, start from a fresh parameter and keep every parameter found; command letters stored are upper case.")
def p23(cx):
    p = cx.p
    table, where = handlers(cx)
    cx.need(len(table), 10, 'commands with an effect')
    members = [x['n'] for x in p.fields('gcode_parser') if 'set<' in x['ty'] or 'vector<' in x['ty']]
    used = {m: filled(cx, 'gcode_parser', m) for m in members}
    textonly = [m for m in members if 'text' in m]
    parsable = [m for m in members if m not in textonly]
    ctor = [f for f in p.funcs.values() if f.get('cls') == 'gcode_parser' and f.get('ctor') and not f['p']]
    if parsable and ctor and any(used[m] for m in parsable):
        allp = set().union(*[used[m] for m in parsable])
        for c in sorted(table):
            cx.ob(c in allp, 'recognised', ctor[0], 'a command the tracker acts on is one whose parameters are parsed', detail=c)
            cx.ob(not any(c in used[m] - allp for m in textonly), 'text-only', ctor[0], 'a command the tracker acts on is not taken as plain text', detail=c)
    else: cx.undecided.append(('recognised',))
    for c, g in table.items():
        suffix = g['q'].split('::')[-1].rsplit('process_', 1)[-1].upper()
        other = [x for x in table if x != c and x in suffix.split('_')]
        named = c in suffix.split('_')
        cx.ob(named or not other, 'routed', where[c][0], 'a command is handled by the function of its own name', where[c][1], '%s is handled by %s' % (c, g['q']))
    numbers(cx)
    parameters(cx)
    upper(cx)
    gathered(cx)


def numbers(cx):
    p = cx.p
    n = 0
    for f in list(parser_set(cx).values()):
        outs = [i for i, x in enumerate(f['p']) if x['ty'].replace(' ', '') in ('double*', 'float*', 'unsignedlong*', 'unsignedint*', 'long*', 'int*')]
        if len(outs) != 1 or 'ptr' not in cursor_params(f).values(): continue
        r = Number(cx, f, ('deref', arg(outs[0])))
        r.fractional = 'double' in f['p'][outs[0]]['ty']
        n += r.check()
        if 'double' in f['p'][outs[0]]['ty']:
            cx.ob(any(k == 'R' and unsigned(s.load(r.out, ()))[1] for k, s, v in r.outs) or not n, 'sign', f, 'negative numbers are read')
    if not n: cx.undecided.append(('numbers',))


def parameters(cx):
    """a parameter's value is stored where its type letter says"""
    p = cx.p
    slot = {'F': 'double_value', 'U': 'unsigned_long_value', 'S': 'string_value'}
    fs = parser_set(cx)
    n = 0
    for f in list(fs.values()):
        ps = [i for i, x in enumerate(f['p']) if 'parsed_command_parameter' in x['ty']]
        if len(ps) != 1: continue
        i = ps[0]
        root = ('param', '#%d' % i) if f['p'][i]['ty'].rstrip().endswith('&') else ('deref', arg(i))
        got = {}

        def oc(E, s, ci):
            g = fs.get(ci.fid)
            if ci.kind != 'call' or not g or 'ptr' not in cursor_params(g).values(): return None
            s = s.copy()
            i0 = E.nid(ci.node)
            for j, a in enumerate(ci.args):
                if a and a[0] == 'addr': s.store(a[1], a[2], ('call', 'out', (C(i0), C(j), s.load(a[1], a[2]))))
                elif j < len(g['p']) and g['p'][j]['ty'].endswith('&') and isinstance(ci.lvs[j], LV): s.store(ci.lvs[j].root, ci.lvs[j].path, ('call', 'out', (C(i0), C(j), s.load(ci.lvs[j].root, ci.lvs[j].path))))
            r = ('call', 'found', (C(i0),))
            t = s.copy()
            res = []
            if s.assume(r, True): res.append((s, C(1)))
            if t.assume(r, False): res.append((t, C(0)))
            return res
        E, outs = paths(cx, f, skip=logskip(p), on_call=oc)
        for k, s, v in outs:
            y = retval(s, v)
            if k != 'R' or y is None or is_c(y) and not y[1] or contradictory(s): continue
            ty = s.load(root, ('value_type',))
            found = {x[2][0] for t, b in s.facts.items() if b is True and t[0] == 'call' and t[1] == 'found' for x in [t]}
            val = {m: s.load(root, (m,)) for m in slot.values()}
            fresh = {m for m, x in val.items() if x != fld(('init', root), m) and (x[0] != 'call' or x[1] != 'out' or x[2][0] in found)}
            if not is_c(ty): 
                cx.undecided.append(('type', f['q'], show(ty)[:80])); continue
            t = chr(ty[1]) if type(ty[1]) is int else ty[1]
            if t in slot:
                n += 1
                cx.ob(slot[t] in fresh, 'slot', f, 'the value of a parameter is stored in the member its type letter stands for', detail="type '%s', stored: %s" % (t, ', '.join(sorted(fresh)) or 'nothing'))
            nm = s.load(root, ('name',))
            c = letter(nm)
            if c is not None:
                if is_c(c): ok = not ('a' <= (chr(c[1]) if type(c[1]) is int else c[1])[:1] <= 'z')
                else: ok = entails(s, NOT(AND(NOT(lt(c, C(97))), NOT(lt(C(122), c)))))
                cx.ob(ok, 'upper', f, 'a parameter name is stored in upper case', detail=show(nm)[:100])
    cx.need(n, 1, 'parameters stored')


def letter(v):
    """the character a one-letter string was made from"""
    v = strip_cast(v)
    if v[0] == 'call' and len(v[2]) and v[1].split('::')[-1] in ('operator=', 'string', 'basic_string'): return letter(v[2][-1])
    if v[0] in ('phi', 'join', 'call', 'fld', 'ite') or v[0] == 'op' and v[1] not in '+-': return None
    return v


def upper(cx):
    """letters of a command name are stored in upper case"""
    p = cx.p
    fs = parser_set(cx)
    n = 0
    for f in list(fs.values()):
        ps = [i for i, x in enumerate(f['p']) if re.match(r'(std::)?(basic_)?string.*[*&]$', x['ty'].replace('std::', '')) and 'const' not in x['ty']]
        if len(ps) != 1 or 'command' not in f['p'][ps[0]]['n']: continue
        i = ps[0]
        root = ('param', '#%d' % i) if f['p'][i]['ty'].rstrip().endswith('&') else ('deref', arg(i))
        bad = []

        def oc(E, s, ci):
            if ci.name in ('push_back', 'operator+=', 'append') and isinstance(ci.this, LV) and ci.this.root == root and ci.args:
                c = strip_cast(ci.args[-1])
                bad.append((c, s.copy(), ci.node))
            return None
        E, outs = paths(cx, f, skip=logskip(p), on_call=oc)
        for c, s, node in bad:
            if is_c(c): continue
            n += 1
            ok = entails(s, NOT(AND(NOT(lt(c, C(97))), NOT(lt(C(122), c)))))
            cx.ob(ok, 'upper', f, 'the letters of a command are stored in upper case', node, show(c)[:100])


def gathered(cx):
    """each parameter starts fresh and every parameter found is kept"""
    p = cx.p
    f = [g for g in p.funcs.values() if g.get('cls') == 'gcode_parser' and any('parsed_command &' in x['ty'] for x in g['p']) and any('bool' == x['ty'] for x in g['p'])]
    if not f: cx.undecided.append(('gathered',)); return
    f = f[0]
    fs = parser_set(cx)
    cmd = [('param', '#%d' % i) for i, x in enumerate(f['p']) if 'parsed_command &' in x['ty']][0]
    pushes = []

    def oc(E, s, ci):
        if ci.kind != 'call': return None
        if ci.name in ('push_back', 'emplace_back') and isinstance(ci.this, LV) and ci.this.root == cmd and ci.this.path == ('parameters',):
            pushes.append((ci.args[0] if ci.args else None, s.copy(), ci.node))
            s = s.copy(); s.store(cmd, ('parameters',), ('call', 'grown', (s.load(cmd, ('parameters',)), ci.args[0] if ci.args else C(0))))
            return [(s, C(0))]
        g = fs.get(ci.fid)
        if not g or 'ptr' not in cursor_params(g).values(): return None
        s = s.copy()
        i0 = E.nid(ci.node)
        first = None
        for j, a in enumerate(ci.args):
            if a and a[0] == 'addr': r, path = a[1], a[2]
            elif j < len(g['p']) and g['p'][j]['ty'].endswith('&') and isinstance(ci.lvs[j], LV): r, path = ci.lvs[j].root, ci.lvs[j].path
            else: continue
            old = s.load(r, path)
            first = first or old
            s.store(r, path, ('call', 'out', (C(i0), C(j), old)))
        return [(s, ('call', 'found', (C(i0), first or C(0))))]
    E, outs = paths(cx, f, {2: C(1)}, skip=logskip(p), on_call=oc, pure={'utilities::rtrim'})
    cx.need(len(pushes), 1, 'parameters kept')
    for v, s, node in pushes:
        if v is None: continue
        inner = [x for x in subterms(v) if x[0] == 'call' and x[1] == 'out']
        if not inner: cx.undecided.append(('pushed', show(v)[:80])); continue
        stale = [x for x in inner if any(y[0] == 'phi' for y in subterms(x[2][2]))]
        cx.ob(not stale, 'fresh', f, 'each parameter is read into a fresh object', node, show(v)[:100])
    for l in loops.infos(E):
        for b in l.backs:
            if contradictory(b): continue
            got = [t for t, x in b.facts.items() if t[0] == 'call' and t[1] == 'found' and x is True and any(y[0] == 'phi' and y[1] == l.lid for y in subterms(t))]
            if got: cx.ob(b.load(cmd, ('parameters',))[:2] == ('call', 'grown'), 'kept', f, 'every parameter found is kept', l.node)
