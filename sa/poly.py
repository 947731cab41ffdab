"""Convex polyhedra over integer atoms: emptiness by Fourier-Motzkin elimination, integer points by back substitution.

A constraint is (coefficients {atom: int}, constant) and means  sum coef*atom + const >= 0.
"""
from fractions import Fraction
from math import gcd, floor, ceil


def norm(c, k):
    c = {a: v for a, v in c.items() if v}
    if not c: return c, k
    g = 0
    for v in c.values(): g = gcd(g, abs(v))
    if g > 1: c, k = {a: v // g for a, v in c.items()}, floor(Fraction(k, g))      # integer tightening
    return c, k


def eliminate(cs, x):
    pos, neg, rest = [], [], []
    for c, k in cs:
        v = c.get(x, 0)
        (pos if v > 0 else neg if v < 0 else rest).append((c, k))
    out = {(tuple(sorted(c.items(), key=str)), k): (c, k) for c, k in rest}
    for c1, k1 in pos:
        for c2, k2 in neg:
            a, b = -c2[x], c1[x]
            d = {}
            for y in set(c1) | set(c2):
                d[y] = a * c1.get(y, 0) + b * c2.get(y, 0)
            d, k = norm(d, a * k1 + b * k2)
            if d or k < 0: out[(tuple(sorted(d.items(), key=str)), k)] = (d, k)
    best = {}
    for c, k in out.values():
        key = tuple(sorted(c.items(), key=str))
        if key not in best or k < best[key][1]: best[key] = (c, k)
    return list(best.values())


def point(cs, limit=4000):
    """an integer point of the polyhedron; None when it is empty; False when none was found"""
    cs = [norm(dict(c), k) for c, k in cs]
    order, levels = [], []
    cur = cs
    while True:
        if any(not c and k < 0 for c, k in cur): return None
        atoms = {a for c, _ in cur for a in c}
        if not atoms: break
        def cost(a): return sum(c.get(a, 0) > 0 for c, _ in cur) * sum(c.get(a, 0) < 0 for c, _ in cur)
        x = min(sorted(atoms, key=str), key=cost)
        order.append(x); levels.append(cur)
        cur = eliminate(cur, x)
        if len(cur) > limit: return False
    # back substitution, in the order opposite to the elimination
    def go(i, env):
        if i < 0: return env
        x, lo, hi = order[i], None, None
        for c, k in levels[i]:
            v = c.get(x, 0)
            if not v: continue
            r = Fraction(-(k + sum(w * env[a] for a, w in c.items() if a != x)), v)
            if v > 0: lo = ceil(r) if lo is None else max(lo, ceil(r))
            else: hi = floor(r) if hi is None else min(hi, floor(r))
        if lo is None and hi is None: lo = hi = 0
        elif lo is None: lo = hi - 2
        elif hi is None: hi = lo + 2
        for v in ([lo] if lo == hi else [lo, hi, (lo + hi) // 2]) if lo <= hi else []:
            e = dict(env); e[x] = v
            r = go(i - 1, e)
            if r: return r
        return False
    return go(len(order) - 1, {}) if order else {'': 0}


def lin_add(a, b, f=1):
    c = dict(a[0])
    for x, v in b[0].items(): c[x] = c.get(x, 0) + f * v
    return c, a[1] + f * b[1]
