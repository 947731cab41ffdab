"""Closed forms of linear loop-varying values (induction variables) from the fixpoint of a loop."""
import re
from .absint import *
from .norm import R, B, equal
from . import norm


def delta_in(b, new, t):
    d = const_delta(new, t)
    if d is None and ('val', t) in b.facts: d = const_delta(new, b.facts[('val', t)])
    return d


def const_delta(new, old):
    """new - old as a number, if it is one"""
    if new == old: return 0
    try:
        n, d = R(op('-', new, old))
    except Exception:
        return None
    c, e = n.const(), d.const()
    if c is None or e is None or e == 0: return None
    return c / e


def resolve(s, t):
    """conditional values whose condition is known in state s"""
    if not any(x[0] == 'ite' for x in subterms(t)): return t
    memo = {}
    def go(x):
        if not isinstance(x, tuple): return x
        r = memo.get(id(x))
        if r is not None: return r[1]
        if x and x[0] == 'ite' and len(x) == 4:
            h = s.holds(x[1])
            if h is not None:
                r = go(x[2] if h else x[3])
                memo[id(x)] = (x, r)
                return r
        r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        if all(a is b for a, b in zip(r, x)): r = x
        memo[id(x)] = (x, r)
        return r
    return go(t)


def pick(t, c, v, memo=None):
    if not isinstance(t, tuple): return t
    if memo is None: memo = {}
    r = memo.get(id(t))
    if r is not None: return r[1]
    if t and t[0] == 'ite' and len(t) == 4 and t[1] == c: r = pick(t[2] if v else t[3], c, v, memo)
    elif t and t[0] == 'ite' and len(t) == 4 and t[1] == mk_not(c): r = pick(t[3] if v else t[2], c, v, memo)
    else: r = tuple(pick(y, c, v, memo) if isinstance(y, tuple) else y for y in t)
    memo[id(t)] = (t, r)
    return r


def is_boolean(t):
    return is_c(t) or t[0] in ('fld', 'phi', 'call') or t[0] == 'op' and t[1] in ('!', '<', '==', 'and', 'or') or t[0] == 'ite' and is_boolean(t[2]) and is_boolean(t[3])


class LoopInfo:
    """one analysed loop: entry values, per-iteration change of each varying location, iteration count at the exits"""
    def __init__(self, rec):
        self.rec = rec
        self.lid = rec['lid']
        self.fn = rec['fn']
        self.node = rec['node']
        self.heads = [h for h, _, _ in rec['iters']]
        self.backs = [b for _, bs, _ in rec['iters'] for b in bs]
        self.exits = [r for _, _, rs in rec['iters'] for r in rs]
        self.delta = {}
        phis = {}
        for h in self.heads:
            for r, v in h.env.items():
                for t in subterms(v):
                    if t[0] == 'phi' and t[1] == self.lid and t[2] == r:
                        phis[(r, t[3])] = t
        self.phis = phis
        self.entry = {}
        for (r, path), t in phis.items():
            ev = {s.load(r, path) for s in rec['entry'] if r in s.env or r[0] != 'v'}
            if len(ev) == 1: self.entry[t] = next(iter(ev))
            ds = set()
            for h, bs, _ in rec['iters']:
                old = h.load(r, path) if r in h.env or r[0] != 'v' else t
                for b in bs:
                    if r[0] == 'v' and r not in b.env: continue
                    new = resolve(b, b.load(r, path))
                    d = delta_in(b, new, t)
                    # a first round of its own, not yet joined with the later ones
                    if d is None and old != t: d = delta_in(b, new, old)
                    ds.add(d)
            if len(ds) == 1: self.delta[t] = next(iter(ds))
        self.rel = {}
        for t in self.entry:
            if self.delta.get(t) is None: self.flagged(t)

    def flagged(self, t):
        """invariant t = K + [p] for a boolean loop-varying p (a count that the flag of the same pass reflects)"""
        for p, ep in self.entry.items():
            if p == t or self.delta.get(p) is not None: continue
            K = None
            e = self.entry[t]
            cs = []
            for v in (True, False):
                if is_c(ep):
                    if bool(ep[1]) != v: continue
                    x = e
                else: x = pick(e, ep, v)
                cs.append(op('-', x, C(1)) if v else x)
            if not cs or any(const_delta(c, cs[0]) != 0 for c in cs): continue
            K = cs[-1]
            ok = bool(self.backs)
            for b in self.backs:
                bt, bp = resolve(b, b.load(t[2], t[3])), resolve(b, b.load(p[2], p[3]))
                h = b.holds(p)
                heads = [h] if h is not None else [True, False]
                if not is_boolean(bp): ok = False; break
                for hv in heads:
                    for v in (True, False):
                        if is_c(bp):
                            if bool(bp[1]) != v: continue
                            x = bt
                        else: x = pick(bt, bp, v)
                        x = norm.subst(x, {t: op('+', K, C(1)) if hv else K})
                        if const_delta(op('-', x, C(1)) if v else x, K) != 0: ok = False
            if ok:
                self.rel[t] = ('ite', p, op('+', K, C(1)), K)
                return

    def count(self, state):
        """iterations done when the loop was left in this (normal) exit state: term or None"""
        for t, val in state.facts.items():
            if t[0] != 'op': continue
            if not any(x[0] == 'phi' and x[1] == self.lid for x in subterms(t)): continue
            if t[1] == '<' and val is False: d = op('-', t[3], t[2])
            elif t[1] == '==' and val is True: d = op('-', t[3], t[2])
            elif t[1] == '<' and val is True and self.integers(): d = op('-', op('+', t[2], C(1)), t[3])
            else: continue
            step = self.step(d)
            if step is None or step == 0: continue
            d0 = self.at0(d)
            if d0 is None: continue
            if t[1] == '<' and step >= 0: continue
            if t[1] == '<' and val and step != -1: continue
            if abs(step) != 1: continue
            return d0 if step < 0 else op('neg', d0)
        return None

    def integers(self):
        """the loop condition compares two integers with <= or >="""
        c = self.node.get('c')
        if not c or c.get('k') != 'bin' or c.get('op') not in ('<=', '>='): return False
        INT = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'char', 'unsigned char', 'size_t', 'unsigned short', 'uint16_t', 'int8_t', 'uint8_t'}
        return all(re.sub(r'\bconst\b', '', x.get('ty', '')).strip() in INT for x in (c['a'], c['b']))

    def step(self, t):
        """change of term t per iteration, if constant"""
        m = {}
        for x in subterms(t):
            if x[0] == 'phi' and x[1] == self.lid:
                if self.delta.get(x) is None: return None
                m[x] = op('+', x, C(float(self.delta[x]) if self.delta[x] != int(self.delta[x]) else int(self.delta[x])))
        return const_delta(norm.subst(t, m), t)

    def at0(self, t):
        m = {}
        for x in subterms(t):
            if x[0] == 'phi' and x[1] == self.lid:
                if x not in self.entry: return None
                m[x] = self.entry[x]
        return norm.subst(t, m)

    def at(self, t, k):
        """value of t after k iterations"""
        m = {}
        for x in subterms(t):
            if x[0] == 'phi' and x[1] == self.lid:
                if x not in self.entry or self.delta.get(x) is None: continue
                d = self.delta[x]
                m[x] = op('+', self.entry[x], op('*', C(int(d) if d == int(d) else float(d)), k))
        return norm.subst(t, m)


def infos(E, fn=None):
    out = []
    for lid, recs in E.loops.items():
        for r in recs:
            out.append(LoopInfo(r))
    rels = [(li, t, v) for li in out for t, v in li.rel.items()]
    if rels:
        for li in out:
            for t in li.entry:
                if li.delta.get(t) is None:
                    ds = set()
                    for b in li.backs:
                        v = resolve(b, b.load(t[2], t[3]))
                        for l2, t2, w in rels:
                            if l2 is not li: v = resolve(b, norm.subst(v, {t2: w}))
                        ds.add(delta_in(b, v, t))
                    if len(ds) == 1: li.delta[t] = next(iter(ds))
    return out


def closed(E, term, state):
    """replace loop-varying values of finished loops in term by their closed forms at the state's exits"""
    term = resolve(state, term)
    for _ in range(4):
        lids = {x[1] for x in subterms(term) if x[0] == 'phi'}
        if not lids: break
        ch = False
        for li in infos(E):
            if li.lid in lids:
                for t, w in li.rel.items(): term = resolve(state, norm.subst(term, {t: w}))
                k = li.count(state)
                if k is None: continue
                t2 = li.at(term, k)
                if t2 != term: term, ch = t2, True
        if not ch: break
    return term
