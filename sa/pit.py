"""Random interpretation of value-flow terms (Gulwani/Necula): two terms whose normal forms differ are
reported as different only if a valuation of their uninterpreted subterms, consistent with the branch
facts of the path, makes them differ.  Uninterpreted calls are interpreted as functions of the values
of their arguments.  Used to decide between "written differently" and "computes something else"."""
import math, random, hashlib
from .absint import is_c, subterms, show
from .norm import SYN

NUM = (int, float)


class Undef(Exception):
    pass


class Val:
    def __init__(self, rnd):
        self.rnd = rnd
        self.atoms = {}
        self.pools = {}
        self.fun = {}
        self.memo = {}

    def key(self, v):
        return ('f', round(v, 9)) if isinstance(v, float) and v != int(v) else ('i', int(v)) if isinstance(v, NUM) and not isinstance(v, bool) else ('o', repr(v))

    def draw(self, a):
        r = self.rnd
        pool = self.pools.get(a)
        if pool:
            st = [x for x in pool if isinstance(x, str)]
            if st and r.random() < .8: return r.choice(st)
            if r.random() < .7:
                return r.choice(pool)
        x = r.random()
        if x < .2: return 0
        if x < .35: return 1
        if x < .5: return r.choice([2, 3, -1, 0.5, 5, 10, -2])
        return r.choice([-1, 1, 1]) * round(r.uniform(0, 12), 3) + (0 if r.random() < .7 else r.uniform(0, .001))

    def fn(self, name, args):
        k = (name, tuple(self.key(x) for x in args))
        if k not in self.fun:
            self.fun[k] = self.draw(('fun', name))
        return self.fun[k]

    def ev(self, t):
        m = self.memo.get(t)
        if m is None:
            m = self.memo[t] = self._ev(t)
        return m

    def set(self, a, v):
        self.atoms[a] = v
        self.memo = {}

    def truth(self, t):
        v = self.ev(t)
        return bool(v) if not isinstance(v, str) else True

    def _ev(self, t):
        k = t[0]
        if k == 'c':
            return t[1] if t[1] is not None else 0
        if k == 'op':
            o = t[1]
            if o == '!': return 0 if self.truth(t[2]) else 1
            if o == 'and': return 1 if self.truth(t[2]) and self.truth(t[3]) else 0
            if o == 'or': return 1 if self.truth(t[2]) or self.truth(t[3]) else 0
            a = [self.ev(x) for x in t[2:]]
            if o == '==':
                return 1 if self.eq(a[0], a[1]) else 0
            if o in ('neg', '~') or len(a) == 1:
                if o == 'neg' and isinstance(a[0], NUM): return -a[0]
                return self.fn('op' + o, a)
            if not all(isinstance(x, NUM) for x in a):
                return self.fn('op' + o, a)
            x, y = a
            try:
                if o == '+': return x + y
                if o == '-': return x - y
                if o == '*': return x * y
                if o == '/': return x / y
                if o == 'idiv': return int(x / y)
                if o == '%': return math.fmod(x, y)
                if o == '<': return 1 if x < y else 0
                if o == '<<': return int(x) << min(int(y), 63)
                if o == '>>': return int(x) >> min(int(y), 63)
                if o == '&': return int(x) & int(y)
                if o == '|': return int(x) | int(y)
            except (ZeroDivisionError, OverflowError, ValueError):
                raise Undef()
            return self.fn('op' + o, a)
        if k == 'ite':
            return self.ev(t[2]) if self.truth(t[1]) else self.ev(t[3])
        if k == 'cast':
            v = self.ev(t[2])
            if isinstance(v, NUM):
                ty = t[1].replace('const ', '')
                if ty in ('double', 'float'): return v
                if ty == 'bool': return 1 if v else 0
                v = int(v)
                bits = {'unsigned char': 8, 'char': 8, 'signed char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32}.get(ty)
                if bits:
                    v &= (1 << bits) - 1
                    if 'unsigned' not in ty and v >> (bits - 1): v -= 1 << bits
                return v
            return self.fn('cast' + t[1], [v])
        if k == 'call':
            nm = SYN.get(t[1], t[1])
            a = [self.ev(x) for x in t[2]]
            if all(isinstance(x, NUM) for x in a):
                try:
                    if nm == 'abs': return abs(a[0])
                    if nm == 'sqrt': return math.sqrt(a[0])
                    if nm == 'floor': return math.floor(a[0])
                    if nm == 'ceil': return math.ceil(a[0])
                    if nm == 'sin': return math.sin(a[0])
                    if nm == 'cos': return math.cos(a[0])
                    if nm == 'acos': return math.acos(a[0])
                    if nm == 'atan2': return math.atan2(a[0], a[1])
                    if nm == 'hypot': return math.hypot(a[0], a[1])
                    if nm == 'min': return min(a)
                    if nm == 'max': return max(a)
                    if nm == 'pow': return float(a[0]) ** a[1]
                    if nm == 'fmod': return math.fmod(a[0], a[1])
                    if nm == 'isnan': return 0
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise Undef()
            return self.fn(nm, a)
        if k == 'fld' and t in self.atoms: return self.atoms[t]
        if k == 'fld' and not isinstance(t[2], str):
            return self.fn('idx', [self.ev(t[1]), self.ev(t[2][1])])
        if k == 'fld' and t[1][0] not in ('init', 'fld'):
            return self.fn('.' + t[2], [self.ev(t[1])])
        if k == 'cat':
            return ''.join(str(self.ev(x)) + '\x01' for x in t[1:])
        if k in ('strm', 'mut', 'out', 'rec', 'arr'):
            return self.fn(k, [self.ev(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else repr(x) for x in t[1:] if not (isinstance(x, tuple) and x and isinstance(x[0], tuple))] +
                           [repr(tuple(self.ev(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else (y[0], self.ev(y[1])) for y in x)) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], tuple)])
        if t not in self.atoms:
            self.atoms[t] = self.draw(t)
        return self.atoms[t]

    def eq(self, x, y):
        if isinstance(x, NUM) and isinstance(y, NUM):
            return abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))
        return x == y


def pools(terms):
    p, cs = {}, {}

    def add(a, *vs):
        p.setdefault(a, [])
        for v in vs:
            if v not in p[a]: p[a].append(v)
    for t in terms:
        for x in subterms(t):
            if x[0] == 'op' and x[1] in ('==', '<') and len(x) == 4:
                for a, b in ((x[2], x[3]), (x[3], x[2])):
                    if is_c(b):
                        tgt = a if a[0] in ('init', 'fld', 'phi', 'join', 'out', 'mut') else ('fun', SYN.get(a[1], a[1])) if a[0] == 'call' else None
                        if tgt is None: continue
                        v = b[1]
                        if isinstance(v, str): add(tgt, v)
                        elif isinstance(v, NUM): add(tgt, v, v + 1, v - 1, v + .5)
                        if isinstance(v, float): cs.setdefault(tgt, set()).add(v)
    for a, vs in cs.items():
        vs = sorted(vs)
        for x, y in zip(vs, vs[1:]): add(a, (x + y) / 2)
    return p


def atoms_of(t):
    out = []
    for x in subterms(t):
        if x[0] in ('init', 'phi', 'join') or (x[0] == 'fld' and isinstance(x[2], str) and x[1][0] in ('init', 'fld')):
            out.append(x)
    return out


def satisfy(val, facts, rnd, steps=60):
    fs = [(t, v) for t, v in facts if t[0] != 'val']
    for _ in range(steps):
        bad = []
        for t, v in fs:
            try:
                if val.truth(t) != v: bad.append(t)
            except Undef:
                bad.append(t)
        if not bad: return True
        t = rnd.choice(bad)
        ats = atoms_of(t)
        funs = [k for k in val.fun]
        if ats and (not funs or rnd.random() < .7):
            a = rnd.choice(ats)
            while a[0] == 'fld' and a not in val.atoms and rnd.random() < .3 and a[1] in ats:
                a = a[1]
            # copy a sibling's value now and then (equalities)
            if len(ats) > 1 and rnd.random() < .35:
                b = rnd.choice(ats)
                try: val.set(a, val.ev(b))
                except Undef: pass
            else:
                val.set(a, val.draw(a))
        elif funs:
            k = rnd.choice(funs)
            val.fun[k] = val.draw(('fun', k[0]))
            val.memo = {}
        else:
            return False
    return False


def witness(a, b, facts=(), tries=60, seed=1, tol=1e-6):
    """valuation consistent with facts for which a != b, or None"""
    rnd = random.Random(seed)
    facts = list(facts.items()) if isinstance(facts, dict) else list(facts)
    rel = facts
    pl = pools([a, b] + [t for t, _ in rel if t[0] != 'val'])
    good = 0
    for i in range(tries):
        v = Val(rnd)
        v.pools = pl
        if not satisfy(v, rel, rnd): continue
        try:
            x, y = v.ev(a), v.ev(b)
        except Undef:
            continue
        good += 1
        if isinstance(x, NUM) and isinstance(y, NUM):
            if abs(x - y) > tol * max(1, abs(x), abs(y)):
                return {show(k): w for k, w in list(v.atoms.items())[:12]}, x, y
        elif x != y:
            return {show(k): w for k, w in list(v.atoms.items())[:12]}, x, y
    return None
