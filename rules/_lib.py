from sa.absint import *
from sa.norm import equal, equivalent, Facts, B, R, split_cases
from sa.prog import walk, calls, AnalysisError
from sa.rule import rule
from sa import norm, pit

DOM = "Static: clang-resolved syntax tree, forward abstract interpretation with a value-numbering (Herbrand term) domain, one abstract state per path, project helpers inlined. "


def arg(i): return ('init', ('param', '#%d' % i))
def o(k, *a): return op(k, *a)
def _int(t): return is_c(t) and type(t[1]) is int
def add(a, b):
    if _int(a) and _int(b): return C(a[1] + b[1])
    if _int(b):
        if b[1] == 0: return a
        if a[0] == 'op' and a[1] == '+' and _int(a[3]): return add(a[2], C(a[3][1] + b[1]))
    return op('+', a, b)
def sub(a, b): return C(a[1] - b[1]) if _int(a) and _int(b) else op('-', a, b)
def mul(a, b): return op('*', a, b)
def div(a, b): return op('/', a, b)
def neg(a): return op('neg', a)
def lt(a, b): return op('<', a, b)
def eq(a, b): return mk_eq(a, b)
def AND(*a):
    r = a[0]
    for x in a[1:]: r = mk_and(r, x)
    return r
def OR(*a):
    r = a[0]
    for x in a[1:]: r = mk_or(r, x)
    return r
NOT = mk_not
def call(n, *a): return ('call', n, tuple(a))
def sqrt(a): return call('sqrt', a)
def absv(a): return call('abs', a)


def paths(cx, fn, args=None, merge=False, **kw):
    """all paths of fn with parameters #0, #1, ...; [(kind, state, value)]"""
    if isinstance(fn, str): fn = cx.p.find(fn)
    E = Engine(cx.p, nomerge=not merge, **kw)
    a = {}
    for i, prm in enumerate(fn['p']):
        if args is not None and i in args: a[prm['n']] = args[i]
        elif not prm['ty'].endswith('&'): a[prm['n']] = arg(i)
        else: a[prm['n']] = LV(('param', '#%d' % i), ())
    outs = E.run(fn, args=a)
    cx.funcs.add(fn['q'])
    return E, outs


def epaths(cx, fn, disj=300, **kw):
    """like paths, but states with identical environments are joined (their facts become a disjunction)"""
    if isinstance(fn, str): fn = cx.p.find(fn)
    E = Engine(cx.p, disj=disj, key=lambda s: frozenset(s.env.items()), **kw)
    E.CAP = 1000
    a = {prm['n']: (arg(i) if not prm['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, prm in enumerate(fn['p'])}
    outs = E.run(fn, State(mon=()), args=a)
    cx.funcs.add(fn['q'])
    return E, outs


def retval(s, v):
    if v is not None and v[0] == 'lvref': return s.load(v[1], v[2])
    return v


def facts_of(s):
    return [(t, v) for t, v in s.facts.items() if t[0] != 'val']


def feasible_facts(s):
    return not Facts(s.facts).bad


def entails(s, t, depth=3):
    """the path facts of state s (or a Facts object) imply boolean term t"""
    F = s if isinstance(s, Facts) else Facts(s.facts)
    return norm.entails(F, t, depth)


def contradictory(s):
    return norm.contradiction(Facts(s.facts))


def logskip(p):
    return {f['q'] for f in p.funcs.values() if f['q'].startswith('logger::')}


def fld(v, *path):
    for f in path: v = sel(v, f)
    return v


LOGFLAGS = ('debug_logging_enabled_', 'verbose_logging_enabled_', 'info_logging_enabled_', 'error_logging_enabled_')


# ------------------------------------------------------------------ model of array_list<T> (its own code is checked by P30)
EMPTY = ('empty',)


def seqn(v):
    """number of elements"""
    if v == EMPTY: return C(0)
    if v[0] == 'push': return add(seqn(v[1]), C(1))
    if v[0] in ('popb', 'popf'): return add(seqn(v[1]), C(-1))
    return ('count', v)


def seqget(v, i):
    if v[0] == 'push':
        n = seqn(v[1])
        if i == n or equal(i, n): return v[2]
        if _int(i) and not _int(n) or norm_const(sub(i, n)) is not None: return seqget(v[1], i)
    if v[0] == 'popb': return seqget(v[1], i)
    if v[0] == 'popf': return seqget(v[1], add(i, C(1)))
    return ('elt', v, i)


def norm_const(t):
    from sa.loops import const_delta
    return const_delta(t, C(0))


def seq_call(E, s, ci, prefix='array_list<'):
    """on_call hook: array_list operations as operations on a sequence value"""
    if not ci.q.startswith(prefix): return None
    m = ci.q.rsplit('::', 1)[1]
    if ci.this is None: return None
    v = s.load(ci.this.root, ci.this.path)
    st = lambda x: s.store(ci.this.root, ci.this.path, x)
    if m == 'push_back': st(('push', v, ci.args[0])); return [(s, None)]
    if m == 'push_front': st(('pushf', v, ci.args[0])); return [(s, None)]
    if m == 'pop_back':
        r = seqget(v, add(seqn(v), C(-1)))
        st(v[1] if v[0] == 'push' else ('popb', v))
        return [(s, r)]
    if m == 'pop_front':
        r = seqget(v, C(0))
        st(('popf', v))
        return [(s, r)]
    if m == 'count': return [(s, seqn(v))]
    if m in ('operator[]', 'get', 'at'):
        r = ('seqelt', v, ci.args[0])
        s.env[r] = seqget(v, ci.args[0])
        return [(s, LV(r, ()))]
    if m == 'clear': st(EMPTY); return [(s, None)]
    if m in ('resize', '~array_list<' + ci.q[len(prefix):].split('>')[0] + '>'): return [(s, None)]
    if m == 'get_max_size': return [(s, ('call', 'max_size', ()))]
    if m == 'copy': st(ci.args[0]); return [(s, None)]
    return None


def settle(S):
    """the state with conditional terms in its facts decided by its other facts"""
    from sa.loops import resolve
    for _ in range(3):
        ch = False
        f = {}
        for k, v in S.facts.items():
            if k[0] != 'val' and any(x[0] == 'ite' for x in subterms(k)):
                k2 = resolve(S, k)
                if k2 != k: ch = True
                k = k2
            if is_c(k):
                if bool(k[1]) != v: return None
                continue
            f[k] = v
        if not ch: return S
        S = State(dict(S.env), f, S.mon, S.tags, S.comp)
    return S


def cases(S, conds):
    """the feasible states for every combination of truth values of conds"""
    work = [S]
    for c in conds:
        nxt = []
        for s in work:
            for b in (True, False):
                t = s.copy()
                if t.assume(c, b):
                    t = settle(t)
                    if t is not None: nxt.append(t)
        work = nxt
    return [t for t in work if not contradictory(t)]
