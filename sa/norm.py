"""Normal forms for the terms of the value-numbering domain.

Arithmetic terms are normalised as rational functions (quotients of polynomials with rational
coefficients) over the remaining, uninterpreted subterms; comparisons as the sign of a normalised
rational function; booleans over these.  Two expressions with equal normal forms compute the same
function over the real numbers, whatever the order, grouping, temporaries or helper functions used.
"""
from fractions import Fraction
from functools import lru_cache
from .absint import C, is_c, mk_not, subterms

SYN = {  # spelling variants of the same mathematical function
    'std::abs': 'abs', 'fabs': 'abs', 'std::fabs': 'abs', 'utilities::abs': 'abs', 'fabsf': 'abs', 'std::fabsf': 'abs', 'abs': 'abs',
    'std::sqrt': 'sqrt', 'sqrtf': 'sqrt', 'utilities::sqrt': 'sqrt', 'std::sqrtf': 'sqrt', 'sqrt': 'sqrt',
    'std::floor': 'floor', 'floorf': 'floor', 'utilities::floor': 'floor', 'std::floorf': 'floor', 'floor': 'floor',
    'std::ceil': 'ceil', 'ceilf': 'ceil', 'utilities::ceil': 'ceil', 'ceil': 'ceil',
    'std::atan2': 'atan2', 'atan2f': 'atan2', 'utilities::atan2': 'atan2', 'std::atan2f': 'atan2', 'atan2': 'atan2',
    'std::sin': 'sin', 'sinf': 'sin', 'utilities::sin': 'sin', 'sin': 'sin',
    'std::cos': 'cos', 'cosf': 'cos', 'utilities::cos': 'cos', 'cos': 'cos',
    'std::hypot': 'hypot', 'hypot': 'hypot', 'utilities::hypot': 'hypot', 'hypotf': 'hypot',
    'std::min': 'min', 'std::max': 'max', 'utilities::min': 'min', 'utilities::max': 'max',
    'std::acos': 'acos', 'acosf': 'acos', 'acos': 'acos', 'std::pow': 'pow', 'pow': 'pow', 'std::isnan': 'isnan', 'isnan': 'isnan',
    'std::string::size': 'strlen', 'std::string::length': 'strlen', 'strlen': 'strlen', 'std::strlen': 'strlen',
    'std::isinf': 'isinf', 'std::isfinite': 'isfinite', 'std::fmod': 'fmod', 'fmod': 'fmod',
}


class P:
    """polynomial: {monomial: Fraction}, monomial = tuple of (atom, exponent) sorted"""
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = {m: c for m, c in d.items() if c != 0}
        self._h = None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(((m, c) for m, c in self.d.items()), key=lambda x: repr(x[0])))
        return self._h

    def __eq__(self, o): return self.d == o.d
    def __hash__(self): return hash(self.key())

    def add(self, o, k=1):
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + k * c
        return P(d)

    def scale(self, k): return P({m: c * k for m, c in self.d.items()})

    def mul(self, o):
        d = {}
        extra = []
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                e = dict(m1)
                for a, x in m2:
                    e[a] = e.get(a, 0) + x
                k = c1 * c2
                red = None
                for a, x in e.items():
                    if a[0] == 'fn' and a[1] == 'sqrt' and x >= 2:
                        red = (a, x)
                        break
                if red:
                    a, x = red
                    n, dd = unkey(a[2])
                    if dd == ONE:
                        e2 = dict(e)
                        e2[a] = x % 2
                        if not e2[a]: del e2[a]
                        base = P({mono(e2): k})
                        for _ in range(x // 2):
                            base = base.mul(n)
                        extra.append(base)
                        continue
                mm = mono(e)
                d[mm] = d.get(mm, 0) + k
        r = P(d)
        for x in extra:
            r = r.add(x)
        return r

    def const(self):
        if not self.d: return Fraction(0)
        if len(self.d) == 1 and () in self.d: return self.d[()]
        return None

    def atoms(self):
        return {a for m in self.d for a, _ in m}

    def linear(self):
        return all(len(m) <= 1 and all(x == 1 for _, x in m) for m in self.d)


def mono(e):
    return tuple(sorted(((a, x) for a, x in e.items() if x), key=repr))


ZERO, ONE = P({}), P({(): Fraction(1)})


def pc(v): return P({(): Fraction(v)})
def atom(a): return P({((a, 1),): Fraction(1)})


def unkey(k):
    """('R', numkey, denkey) -> (P, P)"""
    return P(dict(k[1])), P(dict(k[2]))


def lead(p):
    return max(p.d.items(), key=lambda x: repr(x[0]))


def rat(n, d):
    """normalise the quotient n/d: cancel the monomial and constant content, make d's leading coefficient 1"""
    if not n.d:
        return ZERO, ONE
    c = d.const()
    if c is not None:
        return n.scale(1 / c), ONE
    # cancel common monomial
    com = None
    for m in list(n.d) + list(d.d):
        e = dict(m)
        com = e if com is None else {a: min(x, e[a]) for a, x in com.items() if a in e}
        if not com: break
    if com:
        def dv(p): return P({mono({a: x - com.get(a, 0) for a, x in m}): c for m, c in p.d.items()})
        n, d = dv(n), dv(d)
        c = d.const()
        if c is not None:
            return n.scale(1 / c), ONE
    # n = k * d ?
    k = lead(n)[1] / lead(d)[1]
    if n == d.scale(k):
        return pc(k), ONE
    if len(d.d) > 1:
        q = divide(n, d)
        if q is not None:
            return q, ONE
    k = lead(d)[1]
    return n.scale(1 / k), d.scale(1 / k)


def divide(n, d):
    """exact polynomial division or None"""
    q, r = ZERO, n
    lm, lc = lead(d)
    for _ in range(60):
        if not r.d: return q
        rm, rc = lead(r)
        e = dict(rm)
        for a, x in lm:
            e[a] = e.get(a, 0) - x
        if any(x < 0 for x in e.values()): return None
        t = P({mono(e): rc / lc})
        q = q.add(t)
        r2 = r.add(t.mul(d), -1)
        if r2.d and repr(lead(r2)[0]) >= repr(rm) and lead(r2)[0] == rm: return None
        r = r2
    return None


_cache = {}


def R(t):
    """term -> (num, den)"""
    r = _cache.get(t)
    if r is None:
        if len(_cache) > 400000: _cache.clear()
        r = _cache[t] = _R(t)
    return r


FLOATS = ('double', 'float', 'long double', 'const double', 'const float')


def _R(t):
    if is_c(t) and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return pc(Fraction(t[1]) if t[1] == t[1] and abs(t[1]) != float('inf') else 0), ONE
    k = t[0]
    if k == 'op':
        o = t[1]
        if o == 'neg':
            n, d = R(t[2]); return n.scale(-1), d
        if o in ('+', '-', '*', '/') and len(t) == 4:
            an, ad = R(t[2]); bn, bd = R(t[3])
            if o == '*': return rat(an.mul(bn), ad.mul(bd))
            if o == '/':
                if not bn.d: return atom(('fn', 'div0', K(t[2]))), ONE
                return rat(an.mul(bd), ad.mul(bn))
            s = 1 if o == '+' else -1
            if ad == bd: return rat(an.add(bn, s), ad)
            return rat(an.mul(bd).add(bn.mul(ad), s), ad.mul(bd))
    if k == 'cast' and t[1] in FLOATS:
        return R(t[2])
    if k == 'call':
        nm = SYN.get(t[1])
        a = t[2]
        if nm == 'hypot' and len(a) == 2:
            return R(('call', 'sqrt', (('op', '+', ('op', '*', a[0], a[0]), ('op', '*', a[1], a[1])),)))
        if nm == 'pow' and len(a) == 2 and is_c(a[1]) and a[1][1] in (2, 2.0):
            return R(('op', '*', a[0], a[0]))
        if nm == 'sqrt':
            kk = K(a[0])
            n, d = unkey(kk)
            c = n.const()
            if d == ONE and c is not None and c >= 0:
                f = c.numerator ** 0.5
                import math
                x, y = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if x * x == c.numerator and y * y == c.denominator:
                    return pc(Fraction(x, y)), ONE
        if nm == 'abs':
            # |x| = |-x|
            n, d = R(a[0])
            if n.const() is not None and d == ONE: return pc(abs(n.const())), ONE
            if n.d and lead(n)[1] < 0: n = n.scale(-1)
            return atom(('fn', 'abs', RK(n, d))), ONE
        if nm:
            return atom(('fn', nm) + tuple(K(x) for x in a)), ONE
    if k == 'ite':
        a, b = R(t[2]), R(t[3])
        if a == b: return a
        m = minmax(t)
        if m: return m
        return atom(('ite', B(t[1]), RK(*a), RK(*b))), ONE
    return atom(A(t)), ONE


def minmax(t):
    """recognise |x|, min and max written as a conditional"""
    c, a, b = t[1], t[2], t[3]
    neg = False
    while c[0] == 'op' and c[1] == '!':
        c, neg = c[2], not neg
    if c[0] == 'op' and c[1] == '<' and len(c) == 4:
        # true: c2 < c3
        x, y = c[2], c[3]
        if neg: a, b = b, a
        ka, kb, kx, ky = K(a), K(b), K(x), K(y)
        dn, dd = R(('op', '-', x, y))
        if ka == kx and kb == ky: return atom(('fn', 'min') + tuple(sorted((kx, ky), key=repr))), ONE
        if ka == ky and kb == kx: return atom(('fn', 'max') + tuple(sorted((kx, ky), key=repr))), ONE
        sn, sd = R(('op', '+', a, b))
        if not sn.d:
            # a == -b
            an, ad = R(a)
            if rat(*mulr((an, ad), (ONE, ONE))) == rat(dn.scale(-1), dd) or (rat(an, ad) == rat(dn, dd)):
                r = R(('call', 'abs', (('op', '-', x, y),)))
                if rat(an, ad) == rat(dn, dd):
                    return r[0].scale(-1), r[1]
                return r
    return None


def mulr(x, y): return x[0].mul(y[0]), x[1].mul(y[1])


def RK(n, d): return ('R', n.key(), d.key())
def K(t):
    return RK(*R(t))


def A(t):
    """canonical form of a non-arithmetic term (children normalised)"""
    k = t[0]
    if k == 'op':
        if t[1] in ('<', '==', '!', 'and', 'or'):
            return B(t)
        return ('op', t[1]) + tuple(K(x) for x in t[2:])
    if k == 'call':
        nm = SYN.get(t[1], t[1])
        if nm in ('min', 'max'):
            return ('fn', nm) + tuple(sorted((K(x) for x in t[2]), key=repr))
        return ('call', nm, tuple(VK(x) for x in t[2]))
    if k == 'cast':
        return ('cast', t[1], K(t[2]))
    if k == 'fld':
        return ('fld', VK(t[1]), t[2] if isinstance(t[2], str) else ('[]', K(t[2][1])))
    if k == 'cat':
        return ('cat',) + tuple(VK(x) for x in t[1:])
    if k == 'strm':
        return ('strm', VK(t[1]), VK(t[2]))
    if k in ('mut',):
        return ('mut', t[1], VK(t[2]), tuple(VK(x) for x in t[3]))
    if k == 'out':
        return ('out', t[1], t[2], tuple(VK(x) for x in t[3]))
    return t


def VK(t):
    """canonical form of any value"""
    if t[0] in ('op', 'call', 'cast', 'ite') or (is_c(t) and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)):
        k = K(t)
        return k
    if t[0] == 'rec':
        return ('rec', VK(t[1]), tuple((f, VK(x)) for f, x in t[2]))
    if is_c(t): return t
    return RK(*R(t)) if t[0] in ('fld', 'init') else A(t)


def sgn(n, d):
    """canonical sign subject: (poly, factor) with sign(n/d) = factor*sign(poly)"""
    p = n if d == ONE else n.mul(d)
    if not p.d: return p, 1
    c = lead(p)[1]
    f = 1 if c > 0 else -1
    return p.scale(1 / abs(c)).scale(f), f


def is_lit(t): return is_c(t) and isinstance(t[1], str)


def B(t):
    """canonical boolean: ('b', True/False) | ('sign', polykey, frozenset of signs) | ('not'..)| ('and', fs) | ('or', fs) | ('p', atom)"""
    if is_c(t): return ('b', bool(t[1]))
    if t[0] == 'op':
        o = t[1]
        if o == '!': return bnot(B(t[2]))
        if o == 'and': return bjoin('and', B(t[2]), B(t[3]))
        if o == 'or': return bjoin('or', B(t[2]), B(t[3]))
        if o in ('<', '=='):
            a, b = t[2], t[3]
            if o == '==' and (a == C('') or b == C('')) and not (is_lit(a) and is_lit(b)):
                return B(('op', '==', ('call', 'strlen', (b if a == C('') else a,)), C(0)))
            isnum = lambda x: is_c(x) and isinstance(x[1], (int, float)) and not isinstance(x[1], bool)
            if o == '<' or isnum(a) or isnum(b) or (arith(a) and arith(b)):
                n, d = R(('op', '-', a, b))
                p, f = sgn(n, d)
                c = p.const()
                if c is not None:
                    s = 0 if c == 0 else (1 if c > 0 else -1)
                    return ('b', (s * f == -1) if o == '<' else s == 0)
                return ('sign', p.key(), frozenset([-f]) if o == '<' else frozenset([0]))
            x, y = sorted((VK(a), VK(b)), key=repr)
            return ('p', ('eq', x, y))
    if t[0] == 'ite':
        c, a, b = B(t[1]), B(t[2]), B(t[3])
        return bjoin('or', bjoin('and', c, a), bjoin('and', bnot(c), b))
    if t[0] == 'call' and t[1] == 'std::string::empty':
        return B(('op', '==', ('call', 'strlen', t[2]), C(0)))
    return ('p', VK(t))


def arith(t):
    if t[0] == 'op': return t[1] in ('+', '-', '*', '/', 'neg', 'idiv')
    if t[0] in ('fld', 'init', 'phi', 'join'): return True
    if t[0] == 'call': return SYN.get(t[1]) is not None
    if t[0] in ('cast', 'ite'): return True
    return False


def bnot(b):
    k = b[0]
    if k == 'b': return ('b', not b[1])
    if k == 'not': return b[1]
    if k == 'sign': return ('sign', b[1], frozenset([-1, 0, 1]) - b[2])
    if k == 'and': return ('or', frozenset(bnot(x) for x in b[1]))
    if k == 'or': return ('and', frozenset(bnot(x) for x in b[1]))
    return ('not', b)


def bjoin(o, a, b):
    z = (o == 'or')
    xs = set()
    for x in (a, b):
        if x[0] == 'b':
            if x[1] == z: return x
            continue
        if x[0] == o: xs |= set(x[1])
        else: xs.add(x)
    # combine sign constraints on the same subject
    by = {}
    rest = set()
    for x in xs:
        if x[0] == 'sign':
            if x[1] in by:
                by[x[1]] = (by[x[1]] | x[2]) if z else (by[x[1]] & x[2])
            else: by[x[1]] = x[2]
        else: rest.add(x)
    for p, s in by.items():
        if z and len(s) == 3: return ('b', True)
        if not z and not s: return ('b', False)
        rest.add(('sign', p, s))
    for x in rest:
        if bnot(x) in rest: return ('b', z)
    if not rest: return ('b', not z)
    if len(rest) == 1: return next(iter(rest))
    return (o, frozenset(rest))


# ---------------------------------------------------------------- facts over canonical conditions
class Facts:
    """branch facts of a state in canonical form"""

    def __init__(self, facts=None):
        self.sign = {}
        self.lit = {}
        self.comp = []
        self.bad = False
        if facts:
            for t, v in facts.items():
                if t[0] == 'val': continue
                self.add(B(t) if v else bnot(B(t)))
            for _ in range(3):
                if not self.prop(): break

    def add(self, b):
        k = b[0]
        if k == 'b':
            if not b[1]: self.bad = True
        elif k == 'sign':
            s = self.sign.get(b[1], frozenset([-1, 0, 1])) & b[2]
            self.sign[b[1]] = s
            if not s: self.bad = True
        elif k == 'and':
            for x in b[1]: self.add(x)
        elif k == 'or':
            self.comp.append(b)
        elif k == 'not':
            if self.lit.get(b[1]) is True: self.bad = True
            self.lit[b[1]] = False
        else:
            if self.lit.get(b) is False: self.bad = True
            self.lit[b] = True

    def prop(self):
        ch = False
        for c in list(self.comp):
            left = []
            sat = False
            for x in c[1]:
                h = self.holds(x)
                if h is True: sat = True
                elif h is None: left.append(x)
            if sat:
                self.comp.remove(c)
            elif len(left) == 1:
                self.comp.remove(c)
                self.add(left[0]); ch = True
            elif not left:
                self.bad = True
        return ch

    def holds(self, b):
        k = b[0]
        if k == 'b': return b[1]
        if k == 'sign':
            s = self.sign.get(b[1])
            if s is not None:
                if s <= b[2]: return True
                if not (s & b[2]): return False
            r = self.lin(b)
            return r
        if k == 'not':
            h = self.holds(b[1]); return None if h is None else not h
        if k == 'and':
            hs = [self.holds(x) for x in b[1]]
            if any(h is False for h in hs): return False
            return True if all(hs) else None
        if k == 'or':
            hs = [self.holds(x) for x in b[1]]
            if any(h is True for h in hs): return True
            if b in self.comp: return True
            if all(h is False for h in hs): return False
            for c in self.comp:
                if c[1] <= b[1]: return True
            return None
        return self.lit.get(b)

    def lin(self, b):
        """polyhedral implication over the recorded sign facts"""
        p = P(dict(b[1]))
        ats = set(p.d) - {()}
        rel = []
        pool = [(P(dict(q)), s) for q, s in self.sign.items() if len(s) < 3]
        for _ in range(3):
            nxt = []
            for Q, s in pool:
                if (set(Q.d) - {()}) & ats:
                    rel.append((Q, s))
                    ats = ats | (set(Q.d) - {()})
                else:
                    nxt.append((Q, s))
            if len(nxt) == len(pool): break
            pool = nxt
        rel = rel[:14]
        if not rel: return None
        if all(not feasible(rel + [(p, frozenset([x]))]) for x in {-1, 0, 1} - b[2]): return True
        if all(not feasible(rel + [(p, frozenset([x]))]) for x in b[2]): return False
        return None


def feasible(cons, budget=4000):
    """is the conjunction of sign constraints over (linearised) polynomials satisfiable over the reals"""
    cases = [[]]
    for p, s in cons:
        if s == frozenset([-1]): opts = [[(p, '<')]]
        elif s == frozenset([1]): opts = [[(p.scale(-1), '<')]]
        elif s == frozenset([0]): opts = [[(p, '<='), (p.scale(-1), '<=')]]
        elif s == frozenset([-1, 0]): opts = [[(p, '<=')]]
        elif s == frozenset([0, 1]): opts = [[(p.scale(-1), '<=')]]
        elif s == frozenset([-1, 1]): opts = [[(p, '<')], [(p.scale(-1), '<')]]
        else: opts = [[]]
        cases = [c + o for c in cases for o in opts]
        if len(cases) > 64: return True
    return any(fm(c) for c in cases)


def fm(cons):
    cons = [(dict(p.d), o) for p, o in cons]
    for _ in range(30):
        vs = {}
        for d, o in cons:
            for m in d:
                if m != (): vs[m] = vs.get(m, 0) + 1
        ok = []
        for d, o in cons:
            if not [m for m in d if m != ()]:
                c = d.get((), 0)
                if not (c < 0 if o == '<' else c <= 0): return False
            else: ok.append((d, o))
        cons = ok
        if not cons: return True
        v = min(vs, key=lambda m: sum(1 for d, o in cons if d.get(m, 0) > 0) * sum(1 for d, o in cons if d.get(m, 0) < 0))
        up, lo, no = [], [], []
        for d, o in cons:
            c = d.get(v, 0)
            (up if c > 0 else lo if c < 0 else no).append((d, o))
        for du, ou in up:
            for dl, ol in lo:
                a, b = du[v], -dl[v]
                d = {}
                for m, c in du.items(): d[m] = d.get(m, 0) + c * b
                for m, c in dl.items(): d[m] = d.get(m, 0) + c * a
                d = {m: c for m, c in d.items() if c != 0}
                no.append((d, '<' if '<' in (ou, ol) and (ou == '<' or ol == '<') else '<='))
        cons = no
        if len(cons) > 600: return True
    return True


def equal(a, b):
    """same normal form (real arithmetic)"""
    if a == b: return True
    if VK(a) == VK(b): return True
    try:
        an, ad = R(a); bn, bd = R(b)
    except Exception:
        return False
    return an.mul(bd) == bn.mul(ad)


def split_cases(t, facts=None, limit=512):
    """remove ite terms: list of (list of (cond,bool), ite-free term)"""
    out = []
    work = [([], t)]
    while work:
        cs, x = work.pop()
        it = next((y for y in subterms(x) if y[0] == 'ite'), None)
        if it is None:
            out.append((cs, x)); continue
        # innermost ite first
        while True:
            inner = next((y for z in it[1:] if isinstance(z, tuple) for y in subterms(z) if y[0] == 'ite'), None)
            if inner is None: break
            it = inner
        known = [v for c, v in cs if c == it[1]]
        for v in ([known[0]] if known else [True, False]):
            work.append((cs if known else cs + [(it[1], v)], replace(x, it, it[2] if v else it[3])))
        if len(out) + len(work) > limit:
            raise ValueError('too many cases')
    return out


def replace(t, a, b):
    return subst(t, {a: b}, False)


def subst(t, m, fold=True):
    """replace whole subterms by a mapping"""
    memo = {}
    def f(t):
        if not isinstance(t, tuple): return t
        r = memo.get(id(t))
        if r is not None: return r[1]
        if t in m: r = m[t]
        else:
            r = tuple(f(x) if isinstance(x, tuple) else x for x in t)
            if all(a is b for a, b in zip(r, t)): r = t
            elif fold and len(r) == 4 and r[0] == 'op' and r[1] in ('+', '-', '<', '==') and is_c(r[2]) and is_c(r[3]):
                a, b = r[2][1], r[3][1]
                if type(a) is int and type(b) is int:
                    r = C({'+': a + b, '-': a - b, '<': int(a < b), '==': int(a == b)}[r[1]])
        memo[id(t)] = (t, r)
        return r
    return f(t)


# ---------------------------------------------------------------- equivalence of conditions over finitely many orderings
def subjects(b, out):
    k = b[0]
    if k == 'sign': out.setdefault(b[1], None)
    elif k == 'not': subjects(b[1], out)
    elif k in ('and', 'or'):
        for x in b[1]: subjects(x, out)
    elif k != 'b': out.setdefault(('lit', b), None)


def evalb(b, sg):
    k = b[0]
    if k == 'b': return b[1]
    if k == 'sign': return sg[b[1]] in b[2]
    if k == 'not': return not evalb(b[1], sg)
    if k == 'and': return all(evalb(x, sg) for x in b[1])
    if k == 'or': return any(evalb(x, sg) for x in b[1])
    return sg[('lit', b)]


def equivalent(a, b, facts=()):
    """Do two boolean terms agree in every ordering of the quantities they compare (under the facts)?
    True / (False, ordering) / None when there are too many."""
    A_, B_ = B(a), B(b)
    fs = [B(t) if v else bnot(B(t)) for t, v in facts if t[0] != 'val']
    if A_ == B_: return True
    sub = {}
    subjects(A_, sub); subjects(B_, sub)
    ats = set()
    for s in sub:
        if s[0] != 'lit': ats |= P(dict(s)).atoms()
    for f in fs:
        fsub = {}
        subjects(f, fsub)
        if any(s[0] != 'lit' and P(dict(s)).atoms() & ats or s in sub for s in fsub): sub.update(fsub)
    # |x| as an atom: add its defining cases
    absats = set()
    for s in list(sub):
        if s[0] != 'lit':
            for at in P(dict(s)).atoms():
                if at[0] == 'fn' and at[1] == 'abs': absats.add(at)
    defs = []
    for at in absats:
        n, d = unkey(at[2])
        if d == ONE:
            p, f = sgn(n, ONE)
            sub.setdefault(p.key(), None)
            defs.append((at, n, p.key(), f))
    keys = list(sub)
    if len(keys) > 9: return None
    import itertools
    for combo in itertools.product(*[((True, False) if k[0] == 'lit' else (-1, 0, 1)) for k in keys]):
        sg = dict(zip(keys, combo))
        if any(not evalb(f, sg) for f in fs if not missing(f, sg)): continue
        if evalb(A_, sg) == evalb(B_, sg): continue
        cons = [(P(dict(k)), frozenset([v])) for k, v in sg.items() if k[0] != 'lit']
        for at, n, k, f in defs:
            s = sg[k] * f
            cons.append((atom(at).add(n.scale(s) if s else ZERO, -1), frozenset([0])))
        if feasible(cons):
            return (False, '; '.join('%s %s 0' % (showp(k), {-1: '<', 0: '=', 1: '>'}[v]) if k[0] != 'lit' else '%s=%s' % (k[1], v) for k, v in sg.items()))
    return True


def missing(f, sg):
    s = {}
    subjects(f, s)
    return any(x not in sg for x in s)


def showp(k):
    r = []
    for m, c in k:
        r.append('%s%s' % ('%g' % float(c), ''.join('*' + showatom(a) + ('^%d' % x if x > 1 else '') for a, x in m)))
    return ' + '.join(r)


def showatom(a):
    from .absint import show
    if a[0] == 'fn': return '%s(%s)' % (a[1], ','.join(showp(x[1]) if x[0] == 'R' else '?' for x in a[2:]))
    try: return show(a)
    except Exception: return str(a)[:40]


# ---------------------------------------------------------------- entailment
def _clone(F):
    G = Facts()
    G.sign, G.lit, G.comp, G.bad = dict(F.sign), dict(F.lit), list(F.comp), F.bad
    return G


def absdefs(keys):
    """|x| >= 0, |x| >= x, |x| >= -x for the absolute values occurring in the polynomials"""
    seen, out = set(), []
    work = [P(dict(k)) for k in keys]
    while work:
        p = work.pop()
        for at in p.atoms():
            if at[0] == 'fn' and at[1] in ('abs', 'sqrt', 'strlen') and at not in seen:
                seen.add(at)
                out.append((atom(at), frozenset([0, 1])))
                if at[1] == 'abs':
                    n, d = unkey(at[2])
                    if d == ONE:
                        out.append((atom(at).add(n, -1), frozenset([0, 1])))
                        out.append((atom(at).add(n), frozenset([0, 1])))
    return out


def _hold0(F, b):
    """truth of b from recorded facts without polyhedral reasoning"""
    k = b[0]
    if k == 'b': return b[1]
    if k == 'sign':
        s = F.sign.get(b[1])
        if s is None: return None
        if s <= b[2]: return True
        if not (s & b[2]): return False
        return None
    if k == 'not':
        h = _hold0(F, b[1]); return None if h is None else not h
    if k in ('and', 'or'):
        z = (k == 'or')
        un = False
        for x in b[1]:
            h = _hold0(F, x)
            if h is z: return z
            if h is None: un = True
        return None if un else (not z)
    return F.lit.get(b)


def _unit(F):
    ch = True
    while ch and not F.bad:
        ch = False
        for c in list(F.comp):
            left, sat = [], False
            for x in c[1]:
                h = _hold0(F, x)
                if h is True: sat = True; break
                if h is None: left.append(x)
            if sat: F.comp.remove(c)
            elif not left: F.bad = True; return
            elif len(left) == 1:
                F.comp.remove(c); F.add(left[0]); ch = True


def _subj(b):
    s = {}
    subjects(b, s)
    out = set()
    for k in s:
        if k[0] == 'lit': out.add(k)
        else: out |= P(dict(k)).atoms() | {('poly', k)}
    return out


def _lp(F, ats):
    """comparisons over the quantities connected with ats are jointly unsatisfiable"""
    rest = [(k, P(dict(k)).atoms()) for k, s in F.sign.items() if len(s) < 3]
    sel = []
    ats = set(ats)
    for _ in range(4):
        nxt = []
        for k, a in rest:
            if a & ats: sel.append(k); ats |= a
            else: nxt.append((k, a))
        if len(nxt) == len(rest): break
        rest = nxt
    sel = sel[:22]
    if not sel: return False
    return not feasible([(P(dict(k)), F.sign[k]) for k in sel] + absdefs(sel))


def contradiction(F, depth=3, around=None, budget=None):
    """the recorded facts cannot all hold: unit propagation, case splits of bounded depth on the disjunctions connected with the goal, Fourier-Motzkin on the comparisons"""
    if budget is None: budget = [400]
    budget[0] -= 1
    _unit(F)
    if F.bad: return True
    if around is None: around = {a for k, s in F.sign.items() if len(s) < 3 for a in P(dict(k)).atoms()}
    if _lp(F, {a for a in around if a[0] not in ('lit', 'poly')}): return True
    if depth == 0 or budget[0] <= 0: return False
    cand = []
    for c in F.comp:
        un = [x for x in c[1] if _hold0(F, x) is None]
        if len(un) > 5: continue
        su = _subj(c)
        w = len(su & around)
        if w: cand.append((len(un), -w, len(cand), c, un, su))
    for _, _, _, c, un, su in sorted(cand, key=lambda x: x[:3])[:8]:
        ok = True
        for x in un:
            G = _clone(F)
            G.comp = [y for y in G.comp if y != c]
            G.add(x)
            if not contradiction(G, depth - 1, around | su, budget): ok = False; break
        if ok: return True
        if budget[0] <= 0: return False
    return False


def batoms(b):
    s = {}
    subjects(b, s)
    out = set()
    for k in s:
        if k[0] != 'lit': out |= P(dict(k)).atoms()
    return out


def entails(F, t, depth=3):
    """the facts imply boolean term t"""
    b = B(t)
    if F.holds(b) is True: return True
    G = _clone(F)
    G.add(bnot(b))
    ar = _subj(b)
    return contradiction(G, depth, ar or None)
