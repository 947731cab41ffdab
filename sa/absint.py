"""Abstract interpreter over the resolved syntax tree.

Forward dataflow with (a) a Herbrand/value-numbering domain for values (terms over the values at
function entry and the results of opaque calls), (b) branch facts on such terms, (c) a finite
monitor state supplied by the rule (property simulation: states with equal partition key are
joined at every merge point, everything else is kept apart), (d) inlining of the project's own
functions with a depth bound, and (e) loops run to a fixpoint with a phi term for every location
the body changes.  Nothing is executed and no path is handed to a solver: a branch is pruned only
when its condition is a constant or is decided syntactically by a recorded fact.
"""
import itertools
from functools import reduce
from .prog import AnalysisError

# ---------------------------------------------------------------- terms
INT, STR = 'int', 'str'


def C(v):
    return ('c', v)


NULLP = ('c', None)


def is_c(t):
    return t[0] == 'c'


def op(o, *a):
    return ('op', o) + a


_HC = {}


def _hc(t):
    return _HC.setdefault(t, t)


COMM = {'+', '*', '==', '&', '|', '^'}


def tkey(t):
    return repr(t)


def mk_not(t):
    if is_c(t):
        return C(0 if t[1] else 1)
    if t[0] == 'op' and t[1] == '!':
        return t[2]
    return op('!', t)


def truth(t, ty=None):
    """term for 'value t is non-zero'."""
    if is_c(t):
        if isinstance(t[1], str):
            return C(1)
        return C(1 if t[1] else 0)
    if t[0] == 'op' and t[1] in ('!', '<', '==', 'and', 'or', '<='):
        return t
    if ty and ty.startswith('const '): ty = ty[6:]
    if ty in ('bool', None, '_Bool'):
        return t
    if t[0] in ('addr', 'func'):
        return C(1)
    if t[0] == 'new':
        return C(1)
    return mk_not(mk_eq(t, NULLP if ty and ty.endswith('*') else C(0)))


def bool_bits(t, sh=0):
    """{bit: truth value} of truth values packed into a number (a | b << 1 ...), or None"""
    if t[0] == 'cast': return bool_bits(t[-1], sh)
    if is_c(t) and isinstance(t[1], int) and t[1] in (0, 1): return {sh: C(int(t[1]))}
    if t[0] == 'op' and t[1] in ('!', '<', '==', 'and', 'or', '<='): return {sh: t}
    if t[0] == 'op' and t[1] == '<<' and is_c(t[3]) and isinstance(t[3][1], int) and t[3][1] >= 0: return bool_bits(t[2], sh + t[3][1])
    if t[0] == 'op' and t[1] == '|':
        a, b = bool_bits(t[2], sh), bool_bits(t[3], sh)
        if a is None or b is None or set(a) & set(b): return None
        return {**a, **b}
    return None


def mk_eq(a, b):
    if is_c(a) and is_c(b):
        return C(1 if a[1] == b[1] else 0)
    if a == b:
        return C(1)
    for x, y in ((a, b), (b, a)):
        if is_c(x) and x[1] in (None, 0) and y[0] in ('addr', 'func', 'new'):
            return C(0)
    if a[0] == 'addr' and b[0] == 'addr':
        return C(0)
    for x, y in ((a, b), (b, a)):
        if x[0] == 'ite' and (is_c(y) or y[0] == 'addr') and all(is_c(z) or z[0] == 'addr' for z in ite_leaves(x)):
            p, q = mk_eq(x[2], y), mk_eq(x[3], y)
            if p == q: return p
            if is_c(p): return mk_or(x[1], q) if p[1] else mk_and(mk_not(x[1]), q)
            if is_c(q): return mk_or(mk_not(x[1]), p) if q[1] else mk_and(x[1], p)
    if is_c(a) or (not is_c(b) and tkey(a) > tkey(b)):
        a, b = b, a
    if is_c(b) and a[0] == 'op' and a[1] == '|' and isinstance(b[1], int):
        bits = bool_bits(a)
        if bits is not None:
            r = C(0 if any((b[1] >> i) & 1 and i not in bits for i in range(max(b[1].bit_length(), 1))) else 1)
            for i, t in sorted(bits.items()):
                r = mk_and(r, t if (b[1] >> i) & 1 else mk_not(t))
            return r
    # a is the non-constant operand; boolean-typed compare
    if is_c(b) and a[0] == 'op' and a[1] in ('!', '<', '==', 'and', 'or', '<='):
        if b[1] == 1:
            return a
        if b[1] == 0:
            return mk_not(a)
    return op('==', a, b)


def isbool(e):
    while e['k'] in ('cast', 'paren') and e.get('imp', True): e = e['e']
    return e.get('ty') in ('bool', 'const bool')


def ite_leaves(t):
    if t[0] == 'ite':
        yield from ite_leaves(t[2]); yield from ite_leaves(t[3])
    else: yield t


def mk_bin(o, a, b, ty=''):
    num = lambda t: is_c(t) and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)
    if o == '==':
        return mk_eq(a, b)
    if o == '!=':
        return mk_not(mk_eq(a, b))
    if o in ('<', '>', '<=', '>='):
        if num(a) and num(b):
            return C(int({'<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[o]))
        if o == '<':
            return op('<', a, b)
        if o == '>':
            return op('<', b, a)
        if o == '<=':
            return mk_not(op('<', b, a))
        return mk_not(op('<', a, b))
    if o == '&&':
        return mk_and(a, b)
    if o == '||':
        return mk_or(a, b)
    if o in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'):
        if num(a) and num(b):
            try:
                x, y = a[1], b[1]
                isint = isinstance(x, int) and isinstance(y, int) and 'double' not in ty and 'float' not in ty
                if o == '+': return C(x + y)
                if o == '-': return C(x - y)
                if o == '*': return C(x * y)
                if o == '/' and y != 0:
                    return C(int(x / y) if isint else x / y)
                if o == '%' and y != 0 and isint: return C(x - y * int(x / y))
                if o == '<<' and isint and 0 <= y < 64: return C(x << y)
                if o == '>>' and isint and y >= 0: return C(x >> y)
                if o == '&' and isint: return C(x & y)
                if o == '|' and isint: return C(x | y)
                if o == '^' and isint: return C(x ^ y)
            except (OverflowError, ValueError):
                pass
        if o == '+' and num(b) and b[1] == 0: return a
        if o == '+' and num(a) and a[1] == 0: return b
        if o == '-' and num(b) and b[1] == 0: return a
        if o == '*' and num(b) and b[1] == 1: return a
        if o == '*' and num(a) and a[1] == 1: return b
        if o == '/' and num(b) and b[1] == 1: return a
        if o == '-' and num(b) and isinstance(b[1], (int, float)):
            return mk_bin('+', a, C(-b[1]), ty)
        if o == '+' and num(b) and a[0] == 'op' and a[1] == '+' and num(a[3]):
            return mk_bin('+', a[2], C(a[3][1] + b[1]), ty)
        if o in COMM:
            if is_c(a) or (not is_c(b) and tkey(a) > tkey(b)):
                a, b = b, a
        if o == '/' and 'double' not in ty and 'float' not in ty and ty:
            o = 'idiv'
        return op(o, a, b)
    if o == ',':
        return b
    return op(o, a, b)


def mk_and(a, b):
    if is_c(a): return truth(b) if a[1] else C(0)
    if is_c(b): return a if b[1] else C(0)
    if a == b: return a
    return op('and', a, b)


def mk_or(a, b):
    if is_c(a): return C(1) if a[1] else truth(b)
    if is_c(b): return C(1) if b[1] else a
    if a == b: return a
    return op('or', a, b)


def cat(*parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            out += list(p[1:])
        else:
            out.append(p)
    res = []
    for p in out:
        if is_c(p) and p[1] == '':
            continue
        if res and is_c(p) and is_c(res[-1]) and isinstance(p[1], str) and isinstance(res[-1][1], str):
            res[-1] = C(res[-1][1] + p[1])
        else:
            res.append(p)
    if not res:
        return C('')
    if len(res) == 1:
        return res[0]
    return ('cat',) + tuple(res)


def subterms(t):
    """every distinct subterm object"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if id(x) in seen: continue
            seen.add(id(x))
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


_MENTION = {}


def mentions(t, what):
    k = (t, what)
    r = _MENTION.get(k)
    if r is None:
        r = any(x == what for x in subterms(t))
        _MENTION[k] = r
    return r


def tsize(t):
    return sum(1 for _ in subterms(t))


def show(t, d=0):
    """Readable rendering of a term for reports."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if d > 6:
        return '...'
    s = lambda x: show(x, d + 1)
    if k == 'c': return repr(t[1])
    if k == 'fld': return s(t[1]) + '.' + (t[2] if isinstance(t[2], str) else '[' + s(t[2][1]) + ']')
    if k == 'init': return root_show(t[1])
    if k == 'op':
        if len(t) == 3: return t[1] + '(' + s(t[2]) + ')'
        return '(' + (' ' + t[1] + ' ').join(s(x) for x in t[2:]) + ')'
    if k == 'cat': return ' ++ '.join(s(x) for x in t[1:])
    if k == 'call': return t[1] + '(' + ', '.join(s(x) for x in t[2]) + ')'
    if k == 'addr': return '&' + root_show(t[1]) + ''.join('.' + p if isinstance(p, str) else '[' + s(p[1]) + ']' for p in t[2])
    if k == 'mut': return 'after-' + t[1] + '(' + s(t[2]) + ')'
    if k == 'out': return 'out-of-' + str(t[1])
    if k == 'phi': return 'loop-varying(' + root_show(t[2]) + ''.join('.' + (p if isinstance(p, str) else '[]') for p in t[3]) + ')'
    if k == 'join': return 'either(' + root_show(t[2]) + ''.join('.' + (p if isinstance(p, str) else '[]') for p in t[3]) + ')'
    if k == 'rec': return s(t[1]) + '{...}'
    if k == 'ite': return '(%s ? %s : %s)' % (s(t[1]), s(t[2]), s(t[3]))
    if k == 'cast': return '(%s)%s' % (t[1], s(t[2]))
    if not isinstance(k, str): return '[' + ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t) + ']'
    return k + '(' + ','.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'


def root_show(r):
    if r[0] == 'v': return r[3]
    if r[0] == 'this': return 'this'
    if r[0] == 'deref': return '*' + show(r[1], 3)
    if r[0] == 'g': return r[1]
    if r[0] == 'param': return r[1]
    return '%s' % (r[0],)


# ---------------------------------------------------------------- values of aggregates
def sel(v, f):
    """field f of value v."""
    if v[0] == 'rec':
        for k, x in v[2]:
            if k == f:
                return x
        if isinstance(f, tuple):
            # may alias another element override
            for k, x in v[2]:
                if isinstance(k, tuple) and not (is_c(k[1]) and is_c(f[1])):
                    return ('fld', v, f)
        return sel(v[1], f)
    if v[0] == 'arr' and isinstance(f, tuple) and len(f) == 2 and is_c(f[1]) and type(f[1][1]) is int and f[1][1] >= 0:
        i = f[1][1]
        return v[1 + i] if i < len(v) - 1 else C(0)
    if v[0] == 'zero':
        return C(0)
    if v[0] == 'ite':
        a, b = sel(v[2], f), sel(v[3], f)
        return a if a == b else ('ite', v[1], a, b)
    return ('fld', v, f)


def upd(v, f, x):
    if v[0] == 'rec':
        base, ov = v[1], list(v[2])
    else:
        base, ov = v, []
    if isinstance(f, tuple):
        drop = [k for k, _ in ov if isinstance(k, tuple) and k != f and not (is_c(k[1]) and is_c(f[1]))]
        if drop:
            # a store through an unrelated index: the other elements become unknown versions
            base = ('ver', v)
            ov = [(k, y) for k, y in ov if not isinstance(k, tuple)]
    ov = [(k, y) for k, y in ov if k != f]
    if sel(base, f) != x or base[0] == 'ver':
        ov.append((f, x))
        ov.sort(key=lambda p: repr(p[0]))
    if not ov:
        return base
    return ('rec', base, tuple(ov))


def getp(v, path):
    for f in path:
        v = sel(v, f)
    return v


def setp(v, path, x):
    if not path:
        return x
    return upd(v, path[0], setp(sel(v, path[0]), path[1:], x))


def leaves_diff(a, b, path=()):
    """paths at which two values differ (most specific)."""
    if a == b:
        return
    if a[0] == 'rec' or b[0] == 'rec':
        ba = a[1] if a[0] == 'rec' else a
        bb = b[1] if b[0] == 'rec' else b
        if ba == bb and ba[0] != 'ver':
            keys = []
            for v in (a, b):
                if v[0] == 'rec':
                    keys += [k for k, _ in v[2] if k not in keys]
            if sum(1 for k in keys if isinstance(k, tuple)) > 1 or (any(isinstance(k, tuple) and not is_c(k[1]) for k in keys)):
                yield path
                return
            for k in keys:
                yield from leaves_diff(sel(a, k), sel(b, k), path + (k,))
            return
    yield path


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('env', 'facts', 'mon', 'tags', 'comp')

    def __init__(self, env=None, facts=None, mon=None, tags=None, comp=frozenset()):
        self.comp = comp
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.mon = mon
        self.tags = tags if tags is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.facts), self.mon, dict(self.tags), self.comp)

    def load(self, root, path=()):
        v = self.env.get(root)
        if v is None:
            v = ('init', root)
        return getp(v, path)

    def store(self, root, path, x):
        v = self.env.get(root)
        if v is None:
            v = ('init', root)
        self.env[root] = setp(v, path, x)

    # ---- facts
    def holds(self, t):
        """True / False / None for a boolean term."""
        if is_c(t):
            return bool(t[1])
        if t[0] == 'op' and t[1] == '!':
            r = self.holds(t[2])
            return None if r is None else (not r)
        f = self.facts.get(t)
        if f is not None:
            return f
        if t[0] == 'op':
            if t[1] == 'and':
                a, b = self.holds(t[2]), self.holds(t[3])
                if a is False or b is False: return False
                if a and b: return True
                return None
            if t[1] == 'or':
                a, b = self.holds(t[2]), self.holds(t[3])
                if a or b: return True
                if a is False and b is False: return False
                return None
            if t[1] == '==' and is_c(t[3]):
                k = self.facts.get(('val', t[2]))
                if k is not None:
                    return k == t[3]
            if t[1] == '<':
                a, b = t[2], t[3]
                ka, kb = self.facts.get(('val', a), a), self.facts.get(('val', b), b)
                if ka is not None and kb is not None and is_c(ka) and is_c(kb) and ka[1] is not None and kb[1] is not None and not isinstance(ka[1], str) and not isinstance(kb[1], str):
                    return ka[1] < kb[1]
                if self.facts.get(op('<', b, a)) is True or a == b:
                    return False
                if self.facts.get(mk_eq(a, b)) is True:
                    return False
        return None

    def assume(self, t, val):
        """record t==val; returns False if contradictory."""
        if is_c(t):
            return bool(t[1]) == val
        if t[0] == 'op' and t[1] == '!':
            return self.assume(t[2], not val)
        h = self.holds(t)
        if h is not None and h != val:
            return False
        if t[0] == 'op' and t[1] in ('and', 'or'):
            self.comp = self.comp | {t}
        if t[0] == 'op' and t[1] == 'and' and val:
            self.facts[t] = True
            return self.assume(t[2], True) and self.assume(t[3], True)
        if t[0] == 'op' and t[1] == 'or' and not val:
            self.facts[t] = False
            return self.assume(t[2], False) and self.assume(t[3], False)
        self.facts[t] = val
        if t[0] == 'op' and t[1] == '==' and is_c(t[3]) and val:
            self.facts[('val', t[2])] = t[3]
        # unit propagation over recorded compound facts
        for u in self.comp:
            uv = self.facts.get(u)
            if uv is not None and u is not t:
                if u[1] == 'or' and uv is True:
                    a, b = self.holds(u[2]), self.holds(u[3])
                    if a is False and b is None:
                        if not self.assume(u[3], True): return False
                    elif b is False and a is None:
                        if not self.assume(u[2], True): return False
                    elif a is False and b is False:
                        return False
                elif u[1] == 'and' and uv is False:
                    a, b = self.holds(u[2]), self.holds(u[3])
                    if a is True and b is None:
                        if not self.assume(u[3], False): return False
                    elif b is True and a is None:
                        if not self.assume(u[2], False): return False
                    elif a is True and b is True:
                        return False
        return True


class LV:
    """l-value: root + access path"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def sub(self, f):
        return LV(self.root, self.path + (f,))

    def addr(self):
        return ('addr', self.root, self.path)

    def __repr__(self):
        return root_show(self.root) + ''.join('.' + (p if isinstance(p, str) else '[%s]' % show(p[1])) for p in self.path)


class Frame:
    __slots__ = ('fn', 'ctx', 'vars', 'this', 'depth', 'site')

    def __init__(self, fn, ctx, this, depth, site=None):
        self.fn, self.ctx, self.this, self.depth, self.site = fn, ctx, this, depth, site
        self.vars = {}


class CallInfo:
    def __init__(self, **k):
        self.__dict__.update(k)

    def where(self):
        return "%s:%s" % (self.frame.fn['file'], self.node.get('l'))


PURE_PREFIX = ()
VOLATILE = {'clock', 'rand', 'time', 'std::chrono::system_clock::now'}
SCALAR_HINT = ('bool', 'int', 'unsigned int', 'long', 'unsigned long', 'double', 'float', 'char', 'unsigned char', 'short', 'unsigned short', 'long long', 'unsigned long long', 'signed char')


def strip_ref(ty):
    ty = ty.strip()
    if ty.endswith('&&'): ty = ty[:-2].strip()
    elif ty.endswith('&'): ty = ty[:-1].strip()
    return ty


def nonconst_ref(ty):
    ty = ty.strip()
    return ty.endswith('&') and not ty.startswith('const ') and not ty.endswith('&&')


def nonconst_ptr(ty):
    ty = ty.strip()
    if not ty.endswith('*'): return False
    return not ty.startswith('const ')


STRCLS = ('std::basic_string<char>', 'std::string', 'basic_string<char>')


def is_str(ty):
    ty = strip_ref(ty)
    if ty.startswith('const '): ty = ty[6:]
    return ty in STRCLS or ty.startswith('std::basic_string<char') or ty.startswith('std::string')


def is_iter(cls): return cls.startswith('__gnu_cxx::__normal_iterator<')


class Engine:
    MAXD = 12
    CAP = 48

    def __init__(self, prog, opaque=(), pure=(), skip=(), on_call=None, on_store=None, on_return=None,
                 key=None, resolve_virtual=None, value_copy=True, on_branch=None, on_load=None, inline_if=None, keep_locals=True, on_expr=None, gate=False, nomerge=False, disj=0, unroll=0, split_loops=False):
        self.unroll = unroll
        self.split_loops = split_loops
        self.join_parts = {}
        self.gate, self.nomerge, self.disj = gate, nomerge, disj
        self.loops = {}
        self.split = set()     # conditions whose operands fork
        self.p = prog
        self.opaque = set(opaque)      # qualified names never inlined (events / abstract)
        self.pure = set(pure)          # qualified names kept as uninterpreted pure functions
        self.skip = set(skip)          # qualified names without effect (logging)
        self.on_call, self.on_store, self.on_return, self.on_branch, self.on_load, self.on_expr = on_call, on_store, on_return, on_branch, on_load, on_expr
        self.key_fn = key
        self.resolve_virtual = resolve_virtual
        self.value_copy = value_copy
        self.inline_if = inline_if
        self.keep_locals = keep_locals
        self.stats = dict(functions=set(), calls=0, inlined=0, merges=0, loops=0, stmts=0, states=0)
        self.site = itertools.count()
        self.stack = []
        self.volatile_n = itertools.count()

    # ---------------------------------------------------------------- entry
    def run(self, fn, state=None, this=None, args=None, ctx=('main',)):
        """Analyse fn from a fresh symbolic state; returns outcomes [(kind, state, value)]."""
        st = state or State()
        fr = Frame(fn, ctx, this or LV(('this', fn.get('cls', '')), ()), 0)
        for i, prm in enumerate(fn['p']):
            a = (args or {}).get(prm['n'])
            self.bind_param(st, fr, prm, a)
        self.stack.append(fn['fid'])
        try:
            outs = self.exec_body(fn, fr, st)
        finally:
            self.stack.pop()
        return [('R' if k == 'N' else k, s, v) for k, s, v in outs]

    def bind_param(self, st, fr, prm, a):
        ty = prm['ty']
        if a is None:
            root = ('param', prm['n'])
            if ty.endswith('&'):
                fr.vars[prm['id']] = LV(root, ())
            else:
                r = ('v', fr.ctx, prm['id'], prm['n'])
                st.env[r] = ('init', root)
                fr.vars[prm['id']] = LV(r, ())
            return
        r = ('v', fr.ctx, prm['id'], prm['n'])
        if isinstance(a, LV):
            if ty.endswith('&'):
                fr.vars[prm['id']] = a
            else:
                st.env[r] = st.load(a.root, a.path)
                fr.vars[prm['id']] = LV(r, ())
        else:
            st.env[r] = a
            fr.vars[prm['id']] = LV(r, ())

    # ---------------------------------------------------------------- merging
    def skey(self, s, extra=None):
        loc = ()
        if self.keep_locals:
            loc = tuple(sorted(((r[1], r[2]), v[1]) for r, v in s.env.items()
                               if r[0] == 'v' and v[0] == 'c' and isinstance(v[1], int) and not isinstance(v[1], bool) and v[1] in (0, 1) and s.tags.get(r)))
        return (s.mon, loc, self.key_fn(s) if self.key_fn else None, extra)

    def find_gate(self, a, b):
        """a condition that is true in exactly one of the two states (makes the join exact)"""
        for t, x in a.facts.items():
            if t[0] == 'val': continue
            if x is True and b.facts.get(t) is False:
                return t
            if x is False and b.facts.get(t) is True:
                return mk_not(t)
        for t, x in a.facts.items():
            if t[0] == 'val': continue
            y = b.holds(t)
            if y is not None and y != x:
                return t if x else mk_not(t)
        return None

    def join2(self, a, b, site):
        self.stats['merges'] += 1
        out = State(mon=a.mon, comp=a.comp | b.comp)
        gate = self.gate and self.find_gate(a, b)
        ra = set(a.env) | set(b.env)
        for r in ra:
            va, vb = a.env.get(r, ('init', r)), b.env.get(r, ('init', r))
            if va == vb:
                out.env[r] = va
            else:
                v = va
                for path in leaves_diff(va, vb):
                    if gate:
                        v = setp(v, path, ('ite', gate, getp(va, path), getp(vb, path)))
                    else:
                        j = ('join', site, r, path)
                        v = setp(v, path, j)
                        js = self.join_parts.setdefault(j, [])
                        for x, vx in ((a, va), (b, vb)):
                            y = getp(vx, path)
                            if y != j and len(js) < 40: js.append((dict(x.facts), y))
                out.env[r] = v
        fa, fb = a.facts, b.facts
        for t, x in fa.items():
            y = fb.get(t)
            if y is None and t[0] != 'val':
                y = b.holds(t)
            if y == x:
                out.facts[t] = x
        for t, x in fb.items():
            if t not in out.facts and t[0] != 'val' and a.holds(t) == x:
                out.facts[t] = x
        if self.disj:
            da = [(t, x) for t, x in fa.items() if t[0] != 'val' and t not in out.facts]
            db = [(t, x) for t, x in fb.items() if t[0] != 'val' and t not in out.facts]
            if da and db and sum(tsize(t) for t, _ in da + db) <= self.disj:
                con = lambda fs: reduce(mk_and, [t if x else mk_not(t) for t, x in fs])
                d = mk_or(con(da), con(db))
                if not is_c(d) and not (d[1] == 'or' and (d[2] == mk_not(d[3]) or d[3] == mk_not(d[2]))): out.facts[d] = True
        out.tags = {k: v for k, v in a.tags.items() if b.tags.get(k) == v}
        for k, v in b.tags.items():
            if k not in a.tags or a.tags[k] == v:
                out.tags.setdefault(k, v)
        return out

    def merge(self, outs, site):
        """outs: list of (kind, state, val)"""
        if len(outs) <= 1:
            return outs
        if self.nomerge:
            if len(outs) > 4000:
                raise AnalysisError("too many paths (%d)" % len(outs))
            return outs
        groups = {}
        order = []
        for k, s, v in outs:
            vk = None
            if k == 'R' and v is not None:
                vk = v if (v[0] in ('c',)) else 'sym'
            elif k == 'T' and v is not None: vk = v[:2]
            kk = (k, vk, self.skey(s))
            if kk in groups:
                k0, s0, v0 = groups[kk]
                if v0 != v:
                    va, vb = v0, v
                    if va is None or vb is None:
                        v = None
                    elif k == 'T': v = va[:2] + (('join', site, ('exc',), ()),)
                    else:
                        v = va
                        gate = self.gate and self.find_gate(s0, s)
                        for path in leaves_diff(va, vb):
                            v = setp(v, path, ('ite', gate, getp(va, path), getp(vb, path)) if gate else ('join', site, ('ret',), path))
                groups[kk] = (k, self.join2(s0, s, site), v)
            else:
                groups[kk] = (k, s, v)
                order.append(kk)
        res = [groups[k] for k in order]
        if len(res) > self.CAP:
            # coarsen: drop the local-boolean part of the key
            g2, o2 = {}, []
            for k, s, v in res:
                kk = (k, s.mon, self.key_fn(s) if self.key_fn else None, v if v is None or v[0] == 'c' else v[:2] if k == 'T' else 'sym')
                if kk in g2:
                    k0, s0, v0 = g2[kk]
                    if v0 != v:
                        v = v[:2] + (('join', site, ('exc',), ()),) if k == 'T' else ('join', site, ('ret',), ())
                    g2[kk] = (k, self.join2(s0, s, site), v)
                else:
                    g2[kk] = (k, s, v); o2.append(kk)
            res = [g2[k] for k in o2]
            if len(res) > 4 * self.CAP:
                raise AnalysisError("state explosion (%d states)" % len(res))
        return res

    # ---------------------------------------------------------------- statements
    def exec_body(self, fn, fr, st):
        self.stats['functions'].add(fn['fid'])
        sts = [st]
        if fn.get('ctor'):
            sts = self.ctor_inits(fn, fr, st)
        outs = []
        for s in sts:
            if fn['b'] is None:
                outs.append(('N', s, None))
            else:
                outs += self.exec(fn['b'], fr, s)
        outs = [(('R' if k == 'N' else k), s, v) for k, s, v in outs]
        return self.merge(outs, (fr.ctx, 'exit'))

    def ctor_inits(self, fn, fr, st):
        sts = [st]
        for i in fn.get('inits', []):
            nxt = []
            for s in sts:
                if 'm' in i:
                    lv = fr.this.sub(i['m'])
                    e = i['e']
                    nxt += self.init_lv(e, fr, s, lv)
                elif 'base' in i:
                    nxt += self.init_lv(i['e'], fr, s, fr.this)
                else:
                    nxt += self.init_lv(i['e'], fr, s, fr.this)
            sts = nxt
        return sts

    def init_lv(self, e, fr, s, lv):
        """initialise the object at lv from expression e"""
        if e is None:
            return [s]
        if e.get('k') == 'ctor':
            return [s2 for s2, _ in self.construct(e, fr, s, lv)]
        out = []
        for s2, v in self.ev(e, fr, s):
            self.do_store(s2, lv, v, e, fr)
            out.append(s2)
        return out

    def exec(self, n, fr, st):
        k = n['k'] if n else None
        if n is None or k == 'null_stmt':
            return [('N', st, None)]
        self.stats['stmts'] += 1
        if k == 'block':
            return self.exec_seq(n['s'], fr, [('N', st, None)], n)
        if k == 'decl':
            sts = [st]
            for v in n['v']:
                nx = []
                for s in sts:
                    nx += self.decl(v, fr, s)
                sts = nx
            return [('N', s, None) for s in sts]
        if k == 'if':
            pre = [('N', st, None)]
            if n.get('init'):
                pre = self.exec(n['init'], fr, st)
            if n.get('cvar'):
                pre = self.exec_seq([n['cvar']], fr, pre, n)
            outs = []
            for kk, s, v in pre:
                if kk != 'N':
                    outs.append((kk, s, v)); continue
                ts, fs = self.cond(n['c'], fr, s)
                for x in ts:
                    outs += self.exec(n['t'], fr, x)
                for x in fs:
                    outs += self.exec(n['e'], fr, x) if n['e'] else [('N', x, None)]
            return self.merge(outs, (fr.ctx, 'if', n['l'], id(n)))
        if k in ('while', 'for', 'do', 'forrange'):
            return self.loop(n, fr, st)
        if k == 'return':
            if n['e'] is None:
                return [('R', st, None)]
            rty = fr.fn['ret']
            if rty.endswith('&'):
                return [('R', s, ('lvref', lv.root, lv.path)) for s, lv in self.lv(n['e'], fr, st)]
            return [('R', s, v) for s, v in self.ev(n['e'], fr, st)]
        if k == 'break':
            return [('B', st, None)]
        if k == 'continue':
            return [('Cn', st, None)]
        if k == 'switch':
            return self.switch(n, fr, st)
        if k == 'try':
            return self.try_(n, fr, st)
        if k in ('case', 'default'):
            return self.exec(n['s'], fr, st)
        if k == 'label':
            return self.exec(n['s'], fr, st)
        if k in ('goto', 'otherstmt'):
            raise AnalysisError("unsupported statement %s at %s:%s" % (k, fr.fn['file'], n.get('l')))
        # expression statement
        if k == 'throw':
            if n.get('e') is None:
                return [('T', st, ('rethrow',))]
            return [('T', s, ('exc', n['e'].get('ty'), v)) for s, v in self.ev(n['e'], fr, st)]
        outs = []
        for s, v in self.ev(n, fr, st):
            if v is not None and v[0] == 'thrown':
                outs.append(('T', s, v[1]))
            elif v is not None and v[0] == 'noreturn':
                outs.append(('X', s, v))
            else:
                outs.append(('N', s, None))
        return self.merge(outs, (fr.ctx, 'es', n.get('l'), id(n)))

    def exec_seq(self, stmts, fr, outs, n):
        for c in stmts:
            nxt, done = [], []
            for k, s, v in outs:
                if k == 'N':
                    nxt += self.exec(c, fr, s)
                else:
                    done.append((k, s, v))
            outs = done + nxt
            if len(outs) > 1:
                outs = self.merge(outs, (fr.ctx, 'seq', c.get('l') if c else 0, id(c)))
        return outs

    def decl(self, v, fr, st):
        ty = v['ty']
        if v.get('st'):
            root = ('g', fr.fn['fid'] + '::' + v['n'])
            fr.vars[v['id']] = LV(root, ())
            return [st]
        root = ('v', fr.ctx, v['id'], v['n'])
        if ty.endswith('&'):
            out = []
            for s, lv in self.lv(v['i'], fr, st):
                fr.vars[v['id']] = lv
                out.append(s)
            if len(out) > 1 and len({(l) for l in []}) > 1:
                pass
            return out
        fr.vars[v['id']] = LV(root, ())
        lv = LV(root, ())
        st.tags[root] = (ty in ('bool', 'const bool'))
        if 'i' not in v:
            st.env[root] = ('uninit', root)
            return [st]
        e = v['i']
        st.env[root] = ('uninit', root)
        if e.get('k') == 'ctor':
            return [s for s, _ in self.construct(e, fr, st, lv)]
        out = []
        for s, x in self.ev(e, fr, st):
            s.env[root] = x
            if self.on_store: self.on_store(self, s, lv, x, e, fr)
            out.append(s)
        return out

    # ---------------------------------------------------------------- loops
    def loop(self, n, fr, st):
        self.stats['loops'] += 1
        k = n['k']
        lid = (fr.ctx, 'loop', n['l'], self.nid(n))
        pre = [('N', st, None)]
        if k == 'for' and n['i']:
            pre = self.exec(n['i'], fr, st)
        outs = [o for o in pre if o[0] != 'N']
        entry = [s for kk, s, _ in pre if kk == 'N']
        if k == 'forrange':
            e2 = []
            for s in entry:
                e2 += [x for x, _ in self.lv_or_val(n['r'], fr, s)]
            entry = e2
        if k == 'do':
            # first iteration always runs; treat as: body; while(c) body
            first = []
            for s in entry:
                first += self.exec(n['b'], fr, s)
            nxt = []
            for kk, s, v in self.merge(first, lid + ('d',)):
                if kk in ('N', 'Cn'):
                    nxt.append(s)
                elif kk == 'B':
                    outs.append(('N', s, None))
                else:
                    outs.append((kk, s, v))
            entry = nxt
        if self.unroll and k in ('for', 'while') and n['c'] is not None and not n.get('cvar'):
            r = self.unrolled(n, fr, entry, lid)
            if r is not None: return self.merge(outs + r, lid + ('x',))
        heads = {}
        for s in entry:
            self.add_head(heads, s, lid)
        for it in range(12):
            before = {kk: h for kk, h in heads.items()}
            res, back = [], []
            rec = []
            for kk, h in list(heads.items()):
                nm, self.nomerge = self.nomerge, self.nomerge or self.split_loops
                r, b = self.loop_once(n, fr, h.copy(), lid)
                self.nomerge = nm
                res += r
                back += b
                rec.append((h, b, r))
            changed = False
            for b in back:
                if self.add_head(heads, b, lid):
                    changed = True
            if not changed:
                self.loops.setdefault(lid, []).append(dict(node=n, fn=fr.fn, frame=fr, lid=lid, entry=entry, iters=rec))
                return self.merge(outs + res, lid + ('x',))
        raise AnalysisError("loop at %s:%s does not stabilise" % (fr.fn['file'], n['l']))

    def unrolled(self, n, fr, entry, lid):
        """the loop run for a constant number of rounds (at most self.unroll), or None"""
        cur, outs = [s.copy() for s in entry], []
        for it in range(self.unroll + 1):
            nxt = []
            for s in cur:
                vs = self.ev(n['c'], fr, s.copy())
                if len(vs) != 1 or vs[0][1] is None or not is_c(vs[0][1]): return None
                r, b = self.loop_once(n, fr, s, lid)
                outs += r; nxt += b
            cur = nxt
            if not cur: return outs
        return None

    def nid(self, n):
        i = n.get('_id')
        if i is None:
            i = n['_id'] = next(self.site)
        return i

    def add_head(self, heads, s, lid):
        kk = self.skey(s)
        h = heads.get(kk)
        if h is None:
            heads[kk] = s.copy()
            return True
        changed = False
        new = h.copy()
        for r in set(h.env) | set(s.env):
            if r[0] == 'v' and r not in h.env:
                continue  # body-local
            va, vb = h.env.get(r, ('init', r)), s.env.get(r, ('init', r))
            if va != vb:
                v = va
                for path in leaves_diff(va, vb):
                    ph = ('phi', lid, r, path)
                    w = va
                    for i in range(len(path)):
                        if (w[1] if w[0] == 'rec' else w) == ('phi', lid, r, path[:i]):
                            ph = getp(('phi', lid, r, path[:i]), path[i:])
                            break
                        w = sel(w, path[i])
                    if getp(va, path) != ph:
                        v = setp(v, path, ph)
                        changed = True
                new.env[r] = v
        phis = lambda t: any(x[0] == 'phi' and x[1] == lid for x in subterms(t))
        nf = {}
        for t, x in h.facts.items():
            if phis(t):
                # a fact about the loop-varying value survives only if it holds for both
                if s.facts.get(t) == x and changed is False and False:
                    nf[t] = x
                continue
            y = s.facts.get(t)
            if y is None and t[0] != 'val':
                y = s.holds(t)
            if y == x:
                nf[t] = x
        if nf != h.facts:
            changed = True
        new.facts = nf
        heads[kk] = new
        return changed

    def loop_once(self, n, fr, s, lid):
        k = n['k']
        res, back = [], []
        if k == 'forrange':
            fs = [s.copy()]
            v = n['v']
            root = ('v', fr.ctx, v['id'], v['n'])
            fr.vars[v['id']] = LV(root, ())
            s.env[root] = ('phi', lid, root, ())
            ts = [s]
        elif n['c'] is None:
            ts, fs = [s], []
        else:
            if n.get('cvar'):
                pre = self.exec(n['cvar'], fr, s)
                ts, fs = [], []
                for kk, s1, _ in pre:
                    a, b = self.cond(n['c'], fr, s1)
                    ts += a; fs += b
            else:
                ts, fs = self.cond(n['c'], fr, s)
        for x in fs:
            res.append(('N', x, None))
        outs = []
        for x in ts:
            outs += self.exec(n['b'], fr, x)
        outs = self.merge(outs, lid + ('b',))
        for kk, x, v in outs:
            if kk in ('N', 'Cn'):
                if k == 'for' and n['n']:
                    back += [y for y, _ in self.ev(n['n'], fr, x)]
                else:
                    back.append(x)
            elif kk == 'B':
                res.append(('N', x, None))
            else:
                res.append((kk, x, v))
        return res, back

    # ---------------------------------------------------------------- switch
    def switch(self, n, fr, st):
        body = n['b']
        items = body['s'] if body and body['k'] == 'block' else [body]
        # flatten nested case labels
        flat = []
        for it in items:
            labels = []
            while it is not None and it['k'] in ('case', 'default'):
                labels.append(it)
                it = it['s']
            flat.append((labels, it))
        outs = []
        for s, v in self.ev(n['c'], fr, st):
            remaining = s
            hasdef = None
            for idx, (labels, it) in enumerate(flat):
                for lb in labels:
                    if lb['k'] == 'default':
                        hasdef = idx
                        continue
                    cv = lb['v'].get('cv', lb['v'].get('v'))
                    if cv is None or remaining is None:
                        continue
                    t = mk_eq(v, C(cv))
                    y = remaining.copy()
                    if y.assume(t, True):
                        if self.on_branch: self.on_branch(self, y, t, True, lb, fr)
                        outs += self.run_from(flat, idx, fr, y, n)
                    if not remaining.assume(t, False):
                        remaining = None
            if remaining is not None:
                if hasdef is not None:
                    outs += self.run_from(flat, hasdef, fr, remaining, n)
                else:
                    outs.append(('N', remaining, None))
        outs = [(('N' if k == 'B' else k), s, v) for k, s, v in outs]
        return self.merge(outs, (fr.ctx, 'sw', n['l'], id(n)))

    def run_from(self, flat, idx, fr, s, n):
        return self.exec_seq([it for _, it in flat[idx:] if it is not None], fr, [('N', s, None)], n)

    def try_(self, n, fr, st):
        outs = []
        for k, s, v in self.exec(n['b'], fr, st):
            if k == 'T':
                ety = v[1] if v and v[0] == 'exc' else None
                handled = False
                for h in n['h']:
                    hty = strip_ref(h['ty']).replace('const ', '')
                    et = (ety or '').replace('const ', '')
                    if h['ty'] == '...' or et == hty or (et in self.p.records and hty in self.bases(et)):
                        if h.get('v'):
                            r = ('v', fr.ctx, h['v']['id'], h['v']['n'])
                            fr.vars[h['v']['id']] = LV(r, ())
                            s.env[r] = v
                        outs += self.exec(h['b'], fr, s)
                        handled = True
                        break
                if not handled:
                    outs.append((k, s, v))
            else:
                outs.append((k, s, v))
        return self.merge(outs, (fr.ctx, 'try', n['l'], id(n)))

    def bases(self, c):
        out = []
        for b in self.p.records.get(c, {}).get('bases', []):
            out.append(b); out += self.bases(b)
        return out

    # ---------------------------------------------------------------- conditions
    def cond(self, e, fr, st):
        """returns (true states, false states)"""
        k = e['k']
        if k == 'un' and e['op'] == '!':
            t, f = self.cond(e['e'], fr, st)
            return f, t
        if k == 'cast' and e.get('ck') in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            pass
        elif k == 'bin' and e['op'] in ('&&', '||') and (id(e) in self.split or not self.is_pure_expr(e)):
            T, F = [], []
            t1, f1 = self.cond(e['a'], fr, st)
            if e['op'] == '&&':
                F += f1
                for s in t1:
                    a, b = self.cond(e['b'], fr, s)
                    T += a; F += b
            else:
                T += t1
                for s in f1:
                    a, b = self.cond(e['b'], fr, s)
                    T += a; F += b
            return self.mstates(T, (fr.ctx, 'ct', e['l'], id(e))), self.mstates(F, (fr.ctx, 'cf', e['l'], id(e)))
        T, F = [], []
        for s, v in self.ev(e, fr, st):
            t = truth(v, e.get('ty'))
            h = s.holds(t)
            if h is not False:
                y = s.copy() if h is None else s
                if y.assume(t, True):
                    if self.on_branch: self.on_branch(self, y, t, True, e, fr)
                    T.append(y)
            if h is not True:
                y = s
                if y.assume(t, False):
                    if self.on_branch: self.on_branch(self, y, t, False, e, fr)
                    F.append(y)
        return self.mstates(T, (fr.ctx, 'ct', e['l'], id(e))), self.mstates(F, (fr.ctx, 'cf', e['l'], id(e)))

    def mstates(self, ss, site):
        return [s for _, s, _ in self.merge([('N', s, None) for s in ss], site)]

    def is_pure_expr(self, e):
        r = e.get('_pure')
        if r is None:
            r = e['_pure'] = self._is_pure(e)
        return r

    def _is_pure(self, e):
        k = e['k']
        if k in ('int', 'flt', 'bool', 'str', 'null', 'this', 'ref', 'zero', 'sizeof'):
            return True
        if k == 'mem': return self.is_pure_expr(e['b'])
        if k == 'un': return e['op'] not in ('++', '--') and self.is_pure_expr(e['e'])
        if k == 'bin': return self.is_pure_expr(e['a']) and self.is_pure_expr(e['b'])
        if k == 'cast': return self.is_pure_expr(e['e'])
        if k == 'cond': return all(self.is_pure_expr(e[x]) for x in 'cte')
        if k == 'idx': return self.is_pure_expr(e['b']) and self.is_pure_expr(e['i'])
        if k == 'call':
            if 'fp' in e: return False
            if e.get('f') in self.pure or (e.get('f', '').startswith('std::') and self.ext_pure(e)) or self.simple_getter(e):
                subs = list(e['a']) + ([e['this']] if e.get('this') else [])
                return all(self.is_pure_expr(x) for x in subs)
            return False
        if k == 'ctor' and is_str(e.get('ty', '')):
            return all(self.is_pure_expr(x) for x in e['a'])
        return False

    def simple_getter(self, e):
        """call of a project function whose body is one return of a pure expression"""
        if e.get('f') in self.opaque: return False
        fn = self.p.funcs.get(e.get('fid'))
        if not fn or not fn.get('b') or e.get('virt'): return False
        b = [x for x in fn['b']['s'] if x and x['k'] != 'null_stmt'] if fn['b']['k'] == 'block' else None
        if not b or len(b) > 6 or b[-1]['k'] != 'return' or b[-1]['e'] is None: return False
        if fn['ret'].endswith('&'): return False
        g = fn.get('_getter')
        if g is None:
            fn['_getter'] = False
            ok = all(x['k'] == 'decl' and all('i' in v and not v.get('st') and not v['ty'].endswith('&') and self.is_pure_expr(v['i']) for v in x['v']) for x in b[:-1])
            g = fn['_getter'] = ok and self.is_pure_expr(b[-1]['e'])
        return g

    def ext_pure(self, e):
        if e.get('cm') or e.get('oper') in ('==', '!=', '<', '+', '>', '<=', '>='):
            return True
        if e.get('nm') in ('size', 'length', 'empty', 'c_str', 'at', 'abs', 'sqrt', 'floor', 'ceil', 'round', 'min', 'max', 'isnan', 'isinf', 'sin', 'cos', 'atan2', 'hypot', 'fabs', 'pow', 'fmod', 'acos', 'begin', 'end', 'fabsf', 'lround', 'isfinite'):
            return True
        if e.get('oper') in ('->', '*') and not e.get('cm'):
            return True
        return False

    # ---------------------------------------------------------------- expressions
    def ev(self, e, fr, st):
        """evaluate to values: list of (state, term)"""
        k = e['k']
        if k == 'int' or k == 'flt':
            return [(st, C(e['v']) if 'v' in e else ('big', e.get('vs')))]
        if k == 'bool':
            return [(st, C(1 if e['v'] else 0))]
        if k == 'str':
            return [(st, C(e['v']))]
        if k == 'null':
            return [(st, NULLP)]
        if k == 'zero':
            return [(st, C(0) if strip_ref(e['ty']) in SCALAR_HINT else NULLP if e['ty'].endswith('*') else ('zero',))]
        if k == 'sizeof':
            return [(st, C(e['cv']) if 'cv' in e else ('sizeof', e.get('aty', '')))]
        if k == 'this':
            return [(st, fr.this.addr() if fr.this.root[0] != 'deref' or fr.this.path else fr.this.root[1])]
        if 'cv' in e and k in ('bin', 'un', 'cast', 'ref', 'cond', 'mem') and (k != 'ref' or e.get('dk') == 'enum' or 'const' in e.get('dty', '')):
            return [(st, C(e['cv']))]
        if k == 'ref':
            if e.get('dk') == 'enum':
                return [(st, C(e['cv']))]
            if e.get('dk') == 'func':
                return [(st, ('func', e.get('fid')))]
            return [(s, self.load(s, lv, e, fr)) for s, lv in self.lv(e, fr, st)]
        if k in ('mem', 'idx'):
            if k == 'mem' and e['b']['k'] in ('call', 'ctor', 'cond') and not e['b'].get('ty', '').endswith('*') and not self.ret_ref(e['b']) and not e.get('arrow'):
                return [(s, sel(v, e['f'])) for s, v in self.ev(e['b'], fr, st)]
            return [(s, self.load(s, lv, e, fr)) for s, lv in self.lv(e, fr, st)]
        if k == 'un':
            return self.ev_un(e, fr, st)
        if k == 'bin':
            return self.ev_bin(e, fr, st)
        if k == 'asg':
            return [(s, self.load(s, lv, e, fr, quiet=True)) for s, lv in self.assign(e, fr, st)]
        if k == 'cond':
            if self.is_pure_expr(e):
                (s, c), = self.ev(e['c'], fr, st)
                c = truth(c, e['c'].get('ty'))
                h = s.holds(c)
                if h is True: return self.ev(e['t'], fr, s)
                if h is False: return self.ev(e['e'], fr, s)
                (s, a), = self.ev(e['t'], fr, s)
                (s, b), = self.ev(e['e'], fr, s)
                if a == b: return [(s, a)]
                if a == C(1) and b == C(0): return [(s, c)]
                if a == C(0) and b == C(1): return [(s, mk_not(c))]
                return [(s, ('ite', c, a, b))]
            T, F = self.cond(e['c'], fr, st)
            out = []
            for s in T: out += self.ev(e['t'], fr, s)
            for s in F: out += self.ev(e['e'], fr, s)
            return out
        if k == 'cast':
            return self.ev_cast(e, fr, st)
        if k == 'call':
            return [(s, s.load(v.root, v.path) if isinstance(v, LV) else v) for s, v in self.ev_call(e, fr, st)]
        if k == 'ctor':
            if (e.get('copy') and self.value_copy or is_iter(e['cls'])) and len(e['a']) >= 1:
                return self.ev(e['a'][0], fr, st)
            root = ('v', fr.ctx, ('tmp', self.nid(e)), 'tmp')
            st.env[root] = ('uninit', root)
            out = []
            for s, _ in self.construct(e, fr, st, LV(root, ())):
                out.append((s, s.load(root)))
            return out
        if k == 'new':
            root = ('heap', fr.ctx, self.nid(e))
            sts = [(st, None)]
            size = None
            if e.get('n'):
                sts = self.ev(e['n'], fr, st)
            out = []
            for s, sz in sts:
                s.env[root] = ('uninit', root)
                lv = LV(root, ())
                val = ('addr', root, ())
                info = CallInfo(kind='new', q='operator new', fid=None, name='new', this=None, args=[sz] if sz else [], lvs=[], node=e, frame=fr, engine=self)
                if self.on_call:
                    self.on_call(self, s, info)
                if e.get('i') and not e['arr']:
                    out += [(s2, val) for s2 in self.init_lv(e['i'], fr, s, lv)]
                else:
                    out.append((s, val))
            return out
        if k == 'del':
            out = []
            for s, v in self.ev(e['e'], fr, st):
                info = CallInfo(kind='delete', q='operator delete', fid=None, name='delete', this=None, args=[v], lvs=[], node=e, frame=fr, engine=self)
                if self.on_call:
                    self.on_call(self, s, info)
                out.append((s, C(0)))
            return out
        if k == 'init':
            if len(e['a']) == 1 and strip_ref(e['ty']) in SCALAR_HINT:
                return self.ev(e['a'][0], fr, st)
            sts = [(st, [])]
            for a in e['a']:
                nx = []
                for s, vs in sts:
                    for s2, v in self.ev(a, fr, s):
                        nx.append((s2, vs + [v]))
                sts = nx
            rec = self.p.records.get(strip_ref(e['ty']).replace('const ', ''))
            out = []
            for s, vs in sts:
                if rec and len(rec['f']) == len(vs):
                    v = ('zero',)
                    for f, x in zip(rec['f'], vs):
                        v = upd(v, f['n'], x)
                else:
                    v = ('arr',) + tuple(vs)
                out.append((s, v))
            return out
        if k == 'throw':
            if e.get('e') is None:
                return [(st, ('thrown', ('rethrow',)))]
            return [(s, ('thrown', ('exc', e['e'].get('ty'), v))) for s, v in self.ev(e['e'], fr, st)]
        if k == 'lambda':
            return [(st, ('lambda', self.nid(e)))]
        if k == 'other':
            return [(st, ('other', e.get('cls'), self.nid(e)))]
        raise AnalysisError("unsupported expression %s at %s:%s" % (k, fr.fn['file'], e.get('l')))

    def ret_ref(self, e):
        if e['k'] != 'call': return False
        fn = self.p.funcs.get(e.get('fid'))
        if fn: return fn['ret'].endswith('&')
        return e.get('oper') in ('[]', '*', '->', '=', '<<', '+=') or e.get('nm') in ('back', 'front', 'at', 'append')

    def load(self, s, lv, e, fr, quiet=False):
        v = s.load(lv.root, lv.path)
        if self.on_load and not quiet:
            r = self.on_load(self, s, lv, v, e, fr)
            if r is not None:
                return r
        k = s.facts.get(('val', v))
        if k is not None and v[0] != 'c':
            return k
        return v

    def do_store(self, s, lv, v, e, fr):
        s.store(lv.root, lv.path, v)
        if self.on_store:
            self.on_store(self, s, lv, v, e, fr)

    def ev_un(self, e, fr, st):
        o = e['op']
        if o in ('++', '--'):
            out = []
            for s, lv in self.lv(e['e'], fr, st):
                old = self.load(s, lv, e['e'], fr)
                if e['e'].get('ty', '').endswith('*'):
                    new = self.ptr_add(old, C(1 if o == '++' else -1))
                else:
                    new = mk_bin('+', old, C(1 if o == '++' else -1), e.get('ty', ''))
                self.do_store(s, lv, new, e, fr)
                out.append((s, old if e.get('post') else new))
            return out
        if o == '&':
            if e['e']['k'] == 'ref' and e['e'].get('dk') == 'func':
                return [(st, ('func', e['e'].get('fid')))]
            return [(s, lv.addr() if not (lv.root[0] == 'deref' and not lv.path) else lv.root[1]) for s, lv in self.lv(e['e'], fr, st)]
        if o == '*':
            return [(s, self.load(s, lv, e, fr)) for s, lv in self.lv(e, fr, st)]
        out = []
        for s, v in self.ev(e['e'], fr, st):
            if o == '-':
                out.append((s, C(-v[1]) if is_c(v) and isinstance(v[1], (int, float)) else op('neg', v)))
            elif o == '!':
                out.append((s, mk_not(truth(v, e['e'].get('ty')))))
            elif o == '+':
                out.append((s, v))
            else:
                out.append((s, op(o, v)))
        return out

    def ptr_add(self, p, i):
        if p[0] == 'addr' and p[2] and isinstance(p[2][-1], tuple):
            return ('addr', p[1], p[2][:-1] + (('[]', mk_bin('+', p[2][-1][1], i, 'int')),))
        if p[0] == 'padd':
            return ('padd', p[1], mk_bin('+', p[2], i, 'int'))
        if is_c(i) and i[1] == 0: return p
        return ('padd', p, i)

    def ev_bin(self, e, fr, st):
        o = e['op']
        if o in ('&&', '||'):
            if id(e) not in self.split and self.is_pure_expr(e):
                # keep as a term; evaluate rhs under the assumption of lhs only for pruning
                ra = self.ev(e['a'], fr, st.copy())
                if len(ra) != 1:
                    self.split.add(id(e))
                    T, F = self.cond(e, fr, st)
                    return [(s, C(1)) for s in T] + [(s, C(0)) for s in F]
                (s, a), = ra
                a = truth(a, e['a'].get('ty'))
                if s.holds(a) is (o == '||'):
                    return [(s, C(1 if o == '||' else 0))]
                rb = self.ev(e['b'], fr, s)
                if len(rb) != 1:
                    self.split.add(id(e))
                    T, F = self.cond(e, fr, st)
                    return [(s, C(1)) for s in T] + [(s, C(0)) for s in F]
                (s, b), = rb
                b = truth(b, e['b'].get('ty'))
                ha, hb = s.holds(a), s.holds(b)
                if ha is not None: a = C(int(ha))
                if hb is not None: b = C(int(hb))
                return [(s, mk_and(a, b) if o == '&&' else mk_or(a, b))]
            T, F = self.cond(e, fr, st)
            return [(s, C(1)) for s in T] + [(s, C(0)) for s in F]
        out = []
        for s, a in self.ev(e['a'], fr, st):
            for s2, b in self.ev(e['b'], fr, s):
                if o == ',':
                    out.append((s2, b)); continue
                ta, tb = e['a'].get('ty', ''), e['b'].get('ty', '')
                pa = ta.endswith('*') or ta.endswith(']')
                if pa and o in ('+', '-') and not (tb.endswith('*') or tb.endswith(']')):
                    out.append((s2, self.ptr_add(self.decay(a), b if o == '+' else mk_bin('-', C(0), b, 'int'))))
                    continue
                if o in ('==', '!=') and isbool(e['a']) and isbool(e['b']) and (is_c(a) or is_c(b)):
                    x, y = (a, b) if is_c(b) else (b, a)
                    r = truth(x, 'bool') if bool(y[1]) is (o == '==') else mk_not(truth(x, 'bool'))
                else: r = mk_bin(o, a, b, e.get('ty', ''))
                if self.on_expr:
                    self.on_expr(self, s2, e, fr, r)
                out.append((s2, r))
        return out

    def decay(self, a):
        return a

    def ev_cast(self, e, fr, st):
        ck = e['ck']
        if ck in ('ToVoid',):
            return [(s, C(0)) for s, _ in self.ev(e['e'], fr, st)]
        if ck in ('LValueBitCast',):
            return self.ev(e['e'], fr, st)
        out = []
        for s, v in self.ev(e['e'], fr, st):
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                out.append((s, truth(v, e['from'])))
            elif ck in ('NullToPointer',):
                out.append((s, NULLP))
            elif ck in ('FloatingToIntegral', 'IntegralCast', 'FloatingCast'):
                if is_c(v) and isinstance(v[1], (int, float)):
                    if ck == 'FloatingToIntegral': v = C(int(v[1]))
                    elif ck == 'IntegralCast' and 'cv' in e: v = C(e['cv'])
                    out.append((s, v))
                elif ck == 'FloatingToIntegral' or self.narrow(e['from'], e['ty']):
                    out.append((s, ('cast', e['ty'], v)))
                else:
                    out.append((s, v))
            else:
                out.append((s, v))
        return out

    RANK = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'float': 32, 'double': 64}

    def narrow(self, a, b):
        a, b = a.replace('const ', ''), b.replace('const ', '')
        ra, rb = self.RANK.get(a), self.RANK.get(b)
        if ra is None or rb is None: return False
        if rb < ra: return True
        if rb == ra and a != b and ('unsigned' in a) != ('unsigned' in b): return False
        return False

    # ---------------------------------------------------------------- l-values
    def lv(self, e, fr, st):
        k = e['k']
        if k == 'ref':
            dk = e.get('dk')
            if dk == 'global' or dk == 'other':
                return [(st, LV(('g', e.get('q', e['n'])), ()))]
            if dk == 'static':
                return [(st, LV(('g', fr.fn['fid'] + '::' + e['n']), ()))]
            lv = fr.vars.get(e['id'])
            if lv is None:
                if dk in ('param', 'local'):
                    lv = LV(('v', fr.ctx, e['id'], e['n']), ())
                    fr.vars[e['id']] = lv
                else:
                    lv = LV(('g', e.get('q', e['n'])), ())
            return [(st, lv)]
        if k == 'mem':
            if e.get('stm'):
                return [(st, LV(('g', e['q']), ()))]
            if e['arrow']:
                return [(s, self.deref(v).sub(e['f'])) for s0, v0 in self.ev(e['b'], fr, st) for s, v in self.split_ptr(s0, v0)]
            return [(s, lv.sub(e['f'])) for s, lv in self.lv(e['b'], fr, st)]
        if k == 'idx':
            out = []
            isarr = e['b'].get('ty', '').endswith(']')
            for s, b in (self.lv(e['b'], fr, st) if isarr else self.ev(e['b'], fr, st)):
                for s2, i in self.ev(e['i'], fr, s):
                    if isarr:
                        lv = b.sub(('[]', i))
                    else:
                        lv = self.deref_idx(b, i)
                    if self.on_expr:
                        self.on_expr(self, s2, e, fr, (b, i))
                    out.append((s2, lv))
            return out
        if k == 'un' and e['op'] == '*':
            return [(s, self.deref(v)) for s0, v0 in self.ev(e['e'], fr, st) for s, v in self.split_ptr(s0, v0)]
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            out = []
            for s, lv in self.lv(e['e'], fr, st):
                old = self.load(s, lv, e['e'], fr)
                d = C(1 if e['op'] == '++' else -1)
                self.do_store(s, lv, self.ptr_add(old, d) if e.get('ty', '').endswith('*') else mk_bin('+', old, d, e.get('ty', '')), e, fr)
                out.append((s, lv))
            return out
        if k == 'this':
            return [(st, fr.this)]
        if k == 'asg':
            return self.assign(e, fr, st)
        if k == 'cast':
            if e['ck'] in ('LValueBitCast', 'NoOp', 'BaseToDerived', 'Dynamic'):
                return self.lv(e['e'], fr, st)
            out = []
            for s, v in self.ev(e, fr, st):
                out.append((s, self.tmp(s, fr, e, v)))
            return out
        if k == 'cond' :
            T, F = self.cond(e['c'], fr, st)
            out = []
            for s in T: out += self.lv(e['t'], fr, s)
            for s in F: out += self.lv(e['e'], fr, s)
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for s, _ in self.ev(e['a'], fr, st):
                out += self.lv(e['b'], fr, s)
            return out
        if k == 'call':
            out = []
            for s, v in self.ev_call(e, fr, st, want_lv=True):
                if isinstance(v, LV):
                    out.append((s, v))
                elif v is not None and v[0] == 'lvref':
                    out.append((s, LV(v[1], v[2])))
                else:
                    out.append((s, self.tmp(s, fr, e, v)))
            return out
        out = []
        for s, v in self.ev(e, fr, st):
            out.append((s, self.tmp(s, fr, e, v)))
        return out

    def lv_or_val(self, e, fr, st):
        return self.lv(e, fr, st)

    def tmp(self, s, fr, e, v):
        root = ('v', fr.ctx, ('tmp', self.nid(e)), 'tmp')
        s.env[root] = v if v is not None else ('void',)
        return LV(root, ())

    def split_ptr(self, s, v):
        """a pointer that is one of several known objects: one state per object"""
        if v[0] != 'ite' or not any(x[0] == 'addr' for x in ite_leaves(v)): return [(s, v)]
        out = []
        for b, w in ((True, v[2]), (False, v[3])):
            k = s.holds(v[1])
            if k is not None and k is not b: continue
            t = s.copy()
            if k is None and not t.assume(v[1], b): continue
            out += self.split_ptr(t, w)
        return [(t, w) for t, w in out if w != NULLP]

    def deref(self, v):
        if v[0] == 'addr':
            return LV(v[1], v[2])
        if v[0] == 'padd':
            return LV(('deref', v[1]), (('[]', v[2]),)) if v[1][0] != 'addr' else LV(v[1][1], v[1][2] + (('[]', v[2]),))
        return LV(('deref', v), ())

    def deref_idx(self, b, i):
        if b[0] == 'addr':
            if b[2] and isinstance(b[2][-1], tuple):
                return LV(b[1], b[2][:-1] + (('[]', mk_bin('+', b[2][-1][1], i, 'int')),))
            return LV(b[1], b[2] + (('[]', i),))
        if b[0] == 'padd':
            return self.deref_idx(b[1], mk_bin('+', b[2], i, 'int'))
        return LV(('deref', b), (('[]', i),))

    def assign(self, e, fr, st):
        out = []
        o = e['op']
        # right operand first (matches C++17; no difference for the code at hand)
        for s, v in self.ev(e['b'], fr, st):
            if v is not None and v[0] == 'thrown':
                continue
            for s2, lv in self.lv(e['a'], fr, s):
                if o != '=':
                    old = self.load(s2, lv, e['a'], fr)
                    ty = e['a'].get('ty', '')
                    if ty.endswith('*'):
                        x = self.ptr_add(old, v if o == '+=' else mk_bin('-', C(0), v, 'int'))
                    else:
                        x = mk_bin(o[:-1], old, v, e.get('cty', ty))
                else:
                    x = v
                self.do_store(s2, lv, x, e, fr)
                out.append((s2, lv))
        return out

    # ---------------------------------------------------------------- construction
    def construct(self, e, fr, st, lv):
        cls = e['cls']
        if e.get('copy') and self.value_copy or is_iter(cls) and len(e['a']) == 1:
            out = []
            for s, v in self.ev(e['a'][0], fr, st):
                self.do_store(s, lv, v, e, fr)
                out.append((s, lv))
            return out
        if is_str(cls) or is_str(e.get('ty', '')):
            out = []
            if not e['a']:
                st.store(lv.root, lv.path, C(''))
                if self.on_store: self.on_store(self, st, lv, C(''), e, fr)
                return [(st, lv)]
            for s, vs in self.eval_args(e['a'], fr, st):
                v = vs[0] if len(vs) == 1 or (len(vs) == 2 and e['a'][1]['k'] in ('ctor',)) else ('call', 'std::string::ctor', tuple(vs))
                self.do_store(s, lv, v, e, fr)
                out.append((s, lv))
            return out
        fn = self.p.funcs.get(e['fid'])
        out = []
        for s, args in self.bind_args(e['a'], fn, fr, st):
            if fn and self.can_inline(fn, fr):
                ctx = fr.ctx + (self.nid(e),)
                fr2 = Frame(fn, ctx, lv, fr.depth + 1, e)
                for prm, a in zip(fn['p'], args):
                    self.bind_param(s, fr2, prm, a)
                self.stack.append(fn['fid'])
                res = self.exec_body(fn, fr2, s)
                self.stack.pop()
                for k, s2, v in res:
                    self.drop_frame(s2, ctx)
                    out.append((s2, lv))
            else:
                vals = tuple(s.load(a.root, a.path) if isinstance(a, LV) else a for a in args)
                info = CallInfo(kind='ctor', q=cls, fid=e['fid'], name=cls, this=lv, args=list(vals), lvs=args, node=e, frame=fr, engine=self)
                if self.on_call:
                    self.on_call(self, s, info)
                self.do_store(s, lv, ('call', cls + '::ctor', vals), e, fr)
                out.append((s, lv))
        return out

    # ---------------------------------------------------------------- calls
    def eval_args(self, args, fr, st):
        sts = [(st, [])]
        for a in args:
            nx = []
            for s, vs in sts:
                for s2, v in self.ev(a, fr, s):
                    nx.append((s2, vs + [v]))
            sts = nx
        return sts

    def bind_args(self, args, fn, fr, st, ptypes=None):
        """args as LV when the parameter is a reference, values otherwise"""
        sts = [(st, [])]
        for i, a in enumerate(args):
            pty = None
            if fn and i < len(fn['p']): pty = fn['p'][i]['ty']
            elif ptypes and i < len(ptypes): pty = ptypes[i]
            nx = []
            for s, vs in sts:
                if pty and pty.endswith('&') and (fn is not None or nonconst_ref(pty)):
                    for s2, lv in self.lv(a, fr, s):
                        nx.append((s2, vs + [lv]))
                elif pty and pty.rstrip().endswith('*') and 'char' not in pty and fn is not None and a.get('k') in ('ref', 'mem') and a.get('ty', '').endswith(']'):
                    # an array handed over as a pointer to its first element
                    for s2, lv in self.lv(a, fr, s):
                        nx.append((s2, vs + [('addr', lv.root, lv.path)]))
                else:
                    for s2, v in self.ev(a, fr, s):
                        nx.append((s2, vs + [v]))
            sts = nx
        return sts

    def can_inline(self, fn, fr):
        if fn['b'] is None and not fn.get('ctor'): return False
        if fn['q'] in self.opaque or fn['q'] in self.pure or fn['q'] in self.skip: return False
        if fr.depth >= self.MAXD: return False
        if fn['fid'] in self.stack: return False
        if self.inline_if and not self.inline_if(fn): return False
        return True

    def drop_frame(self, s, ctx):
        n = len(ctx)
        for r in [r for r in s.env if r[0] == 'v' and r[1][:n] == ctx]:
            del s.env[r]
            s.tags.pop(r, None)

    def targets(self, e):
        fid = e.get('fid')
        fn = self.p.funcs.get(fid)
        if e.get('virt'):
            if self.resolve_virtual:
                r = self.resolve_virtual(self, e)
                if r is not None:
                    return r
            ov = [fid] + self.all_over(fid)
            ov = [self.p.funcs[x] for x in ov if x in self.p.funcs]
            return ov
        return [fn] if fn else []

    def all_over(self, fid):
        out = []
        for x in self.p.overriders.get(fid, []):
            out.append(x)
            out += self.all_over(x)
        return out

    def ev_call(self, e, fr, st, want_lv=False):
        self.stats['calls'] += 1
        q = e.get('f', '')
        nm = e.get('nm', '')
        if q in self.skip:
            # arguments are still evaluated for project effects only if impure; logging arguments are values
            return [(st, C(0) if e.get('ty') != 'bool' else ('call', q, ()))]
        meth = e.get('meth') and 'oper' not in e
        opm = 'oper' in e
        cls = e.get('cls', '')
        # ---- string / stream operators and value assignment operators
        if opm:
            r = self.oper_call(e, fr, st, want_lv)
            if r is not None:
                return r
        fns = self.targets(e) if 'fp' not in e else []
        # evaluate object
        out = []
        objs = [(st, None)]
        fp = e.get('fp')
        while isinstance(fp, dict) and fp.get('k') == 'paren': fp = fp['e']
        memfn = isinstance(fp, dict) and fp.get('k') == 'bin' and fp.get('op') in ('->*', '.*')
        if memfn:
            # call through a pointer to member: the object stands left of the operator
            if fp['op'] == '->*': objs = [(s, self.deref(v)) for s0, v0 in self.ev(fp['a'], fr, st) for s, v in self.split_ptr(s0, v0)]
            else: objs = self.lv(fp['a'], fr, st)
        elif e.get('this') is not None:
            t = e['this']
            if e.get('arrow'):
                objs = [(s, self.deref(v)) for s0, v0 in self.ev(t, fr, st) for s, v in self.split_ptr(s0, v0)]
            else:
                objs = self.lv(t, fr, st)
        args_e = e['a']
        if opm and e.get('meth'):
            objs = self.lv(args_e[0], fr, st)
            args_e = args_e[1:]
        for s, obj in objs:
            if 'fp' in e:
                for s1, fv in self.ev(fp['b'] if memfn else e['fp'], fr, s):
                    tgt = self.p.funcs.get(fv[1]) if fv and fv[0] == 'func' else None
                    if tgt and tgt.get('cls') and obj is None: obj = fr.this
                    out += self.invoke(e, q, [tgt] if tgt else [], obj, args_e, fr, s1, want_lv, fv)
            else:
                out += self.invoke(e, q, fns, obj, args_e, fr, s, want_lv, None)
        return out

    def invoke(self, e, q, fns, obj, args_e, fr, st, want_lv, fv):
        out = []
        fn0 = fns[0] if fns else None
        for s, args in self.bind_args(args_e, fn0, fr, st, e.get('pt')):
            vals = [s.load(a.root, a.path) if isinstance(a, LV) else a for a in args]
            info = CallInfo(kind='call', q=q, fid=e.get('fid'), name=e.get('nm', ''), this=obj, args=vals, lvs=args, node=e, frame=fr, engine=self, fv=fv, targets=fns)
            if self.on_call:
                r = self.on_call(self, s, info)
                if r is not None:
                    # rule models the call: list of (state, value)
                    out += [(x if isinstance(x, tuple) else (x, None)) for x in r]
                    continue
            inl = [f for f in fns if self.can_inline(f, fr)]
            if inl and len(inl) == len(fns):
                for f in inl:
                    s1 = s.copy() if len(inl) > 1 else s
                    out += self.inline(f, e, obj, args, fr, s1, want_lv)
                continue
            out += self.extern(e, q, obj, args, vals, fr, s, want_lv, fn0)
        return out

    def inline(self, fn, e, obj, args, fr, s, want_lv):
        self.stats['inlined'] += 1
        ctx = fr.ctx + (self.nid(e),)
        if len(self.p.overriders.get(e.get('fid'), [])):
            ctx = ctx + (fn['fid'],)
        fr2 = Frame(fn, ctx, obj if obj is not None else LV(('nothis',), ()), fr.depth + 1, e)
        for prm, a in zip(fn['p'], args):
            self.bind_param(s, fr2, prm, a)
        self.stack.append(fn['fid'])
        res = self.exec_body(fn, fr2, s)
        self.stack.pop()
        out = []
        for k, s2, v in res:
            if self.on_return:
                self.on_return(self, s2, fn, k, v, fr2)
            if v is not None and v[0] == 'lvref':
                lv = LV(v[1], v[2])
                if want_lv:
                    v = lv
                else:
                    v = s2.load(lv.root, lv.path)
            self.drop_frame(s2, ctx)
            if k == 'T':
                out.append((s2, ('thrown', v)))
            elif k == 'X':
                out.append((s2, ('noreturn',)))
            else:
                out.append((s2, v if v is not None else C(0)))
        return out

    def extern(self, e, q, obj, args, vals, fr, s, want_lv, fn):
        """opaque call: result term + havoc of what it may change"""
        nm = e.get('nm', '') or q
        name = q or 'indirect'
        ovals = tuple(vals)
        objv = None
        if obj is not None:
            objv = s.load(obj.root, obj.path)
        allv = ((objv,) if objv is not None else ()) + ovals
        if q in self.pure or (q.startswith('std::') and self.ext_pure(e)) or q in ('abs', 'sqrt', 'floor', 'ceil', 'atan2', 'sin', 'cos', 'hypot', 'strlen', 'fabs', 'floorf', 'fmod'):
            if want_lv and obj is not None and nm in ('at', 'back', 'front', 'begin'):
                return [(s, obj.sub(('[]', ovals[0] if ovals else C(nm))))]
            if nm in ('c_str', 'data', 'str') and is_str(e.get('cls', '')):
                return [(s, objv)]
            if nm == 'compare' and is_str(e.get('cls', '')) and len(ovals) == 1:
                return [(s, mk_not(mk_eq(objv, ovals[0])))]
            return [(s, ('call', name, allv))]
        if q in VOLATILE or nm in VOLATILE:
            return [(s, ('call', name, allv + (('n', fr.ctx, self.nid(e)),)))]
        # strings
        if is_str(e.get('cls', '')) and obj is not None:
            if nm in ('append', 'push_back'):
                if len(ovals) == 1:
                    x = ovals[0]
                elif len(ovals) == 2 and e['a'][1]['k'] == 'ref' and e['a'][1].get('q', '').endswith('npos'):
                    x = ('call', 'substr', ovals)
                else:
                    x = ('call', 'chars', ovals)
                self.do_store(s, obj, cat(objv, x), e, fr)
                return [(s, obj if want_lv else s.load(obj.root, obj.path))]
            if nm == 'clear':
                self.do_store(s, obj, C(''), e, fr)
                return [(s, C(0))]
            if nm == 'assign' and len(ovals) == 1:
                self.do_store(s, obj, ovals[0], e, fr)
                return [(s, obj if want_lv else ovals[0])]
            if nm == 'reserve':
                return [(s, C(0))]
        ret = ('call', name, allv)
        project = fn is not None
        # effects
        if obj is not None and not e.get('cm'):
            self.do_store(s, obj, ('mut', name, objv, ovals), e, fr)
        pts = e.get('pt') or []
        for i, a in enumerate(args):
            pty = pts[i] if i < len(pts) else ''
            if isinstance(a, LV) and nonconst_ref(pty):
                self.do_store(s, a, ('out', name, i, allv), e, fr)
            elif not isinstance(a, LV) and nonconst_ptr(pty) and a[0] in ('addr',):
                l = self.deref(a)
                if l.path and isinstance(l.path[-1], tuple):
                    l = LV(l.root, l.path[:-1])
                self.do_store(s, l, ('out', name, i, allv), e, fr)
        if not project and obj is None and not pts:
            pass
        if want_lv and obj is not None and nm in ('back', 'front', 'at', 'operator[]', 'operator*', 'operator->'):
            return [(s, obj.sub(('[]', ovals[0] if ovals else C(nm))))]
        return [(s, ret)]

    def oper_call(self, e, fr, st, want_lv):
        o = e['oper']
        a = e['a']
        t0 = a[0].get('ty', '')
        q = e.get('f', '')
        fn = self.p.funcs.get(e.get('fid'))
        if o == '=' and (fn is None or fn.get('impl') or fn.get('dflt') or self.value_copy and fn and len(a) == 2 and strip_ref(a[1].get('ty', '')).replace('const ', '') == strip_ref(t0).replace('const ', '')):
            out = []
            for s, v in self.ev(a[1], fr, st):
                for s2, lv in self.lv(a[0], fr, s):
                    self.do_store(s2, lv, v, e, fr)
                    out.append((s2, lv if want_lv else v))
            return out
        if fn is not None:
            return None
        if o in ('==', '!='):
            out = []
            for s, x in self.ev(a[0], fr, st):
                for s2, y in self.ev(a[1], fr, s):
                    t = mk_eq(x, y)
                    out.append((s2, t if o == '==' else mk_not(t)))
            return out
        if is_str(t0) or is_str(e.get('ty', '')):
            if o == '+':
                out = []
                for s, x in self.ev(a[0], fr, st):
                    for s2, y in self.ev(a[1], fr, s):
                        out.append((s2, cat(x, y)))
                return out
            if o == '+=':
                out = []
                for s, v in self.ev(a[1], fr, st):
                    for s2, lv in self.lv(a[0], fr, s):
                        self.do_store(s2, lv, cat(s2.load(lv.root, lv.path), v), e, fr)
                        out.append((s2, lv if want_lv else s2.load(lv.root, lv.path)))
                return out
        if o == '<<' or o == '>>':
            # stream insertion: content is concatenated to the stream object
            out = []
            for s, lv in self.lv(a[0], fr, st):
                for s2, v in (self.ev(a[1], fr, s) if o == '<<' else self.lv(a[1], fr, s)):
                    if o == '>>':
                        self.do_store(s2, v, ('out', 'operator>>', 1, (s2.load(lv.root, lv.path),)), e, fr)
                        v = v.addr()
                    elif is_c(v) and a[1].get('ty', '').replace('const ', '') == 'char' and isinstance(v[1], int) and not isinstance(v[1], bool) and 0 < v[1] < 128: v = C(chr(v[1]))
                    info = CallInfo(kind='stream', q='operator' + o, fid=e.get('fid'), name='operator' + o, this=lv, args=[v], lvs=[v], node=e, frame=fr, engine=self, stream_ty=t0)
                    if self.on_call:
                        r = self.on_call(self, s2, info)
                        if r is not None:
                            out += r if not want_lv else [(x[0], lv) for x in r]
                            continue
                    self.do_store(s2, lv, ('strm', s2.load(lv.root, lv.path), v), e, fr)
                    out.append((s2, lv if want_lv else s2.load(lv.root, lv.path)))
            return out
        if o == '[]':
            out = []
            for s, lv in self.lv(a[0], fr, st):
                for s2, i in self.ev(a[1], fr, s):
                    l2 = lv.sub(('[]', i))
                    out.append((s2, l2 if want_lv else self.load(s2, l2, e, fr)))
            return out
        if o in ('*', '->') and len(a) == 1:
            out = []
            for s, v in self.ev(a[0], fr, st):
                l2 = self.deref(v)
                if o == '->':
                    out.append((s, v))
                else:
                    out.append((s, l2 if want_lv else self.load(s, l2, e, fr)))
            return out
        if o in ('++', '--'):
            out = []
            for s, lv in self.lv(a[0], fr, st):
                old = s.load(lv.root, lv.path)
                self.do_store(s, lv, self.ptr_add(old, C(1 if o == '++' else -1)) if old[0] in ('addr', 'padd') else C(old[1] + (1 if o == '++' else -1)) if is_c(old) and type(old[1]) is int else op('+', old, C(1 if o == '++' else -1)), e, fr)
                out.append((s, lv if want_lv and len(a) == 1 else (old if len(a) == 2 else s.load(lv.root, lv.path))))
            return out
        return None
