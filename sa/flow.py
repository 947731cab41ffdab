"""forward dataflow over the resolved syntax tree of one function (structured control flow, join over paths)

State: dict {key: frozenset}; join is pointwise union (missing key = bottom of that key, the client's `missing`).
Clients override visit(node, state) (called after the operands of node were evaluated, in evaluation order) and branch(cond, state, truth)."""
from .prog import AnalysisError


def join(a, b):
    if a is None: return b
    if b is None: return a
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, frozenset()) | v
    return out


ORDER = {'asg': ('r', 'l', 'b', 'a')}
SKIP = {'ty', 'l', 'k', 'f', 'op', 'q', 'fid', 'v', 'cv', 'n'}


class Flow:
    def __init__(self, p):
        self.p = p
        self.exits = []           # (kind, node, state): 'return', 'end', 'throw'

    # -- to override
    def visit(self, n, s): return s
    def branch(self, c, s, truth): return s
    def declare(self, v, s): return s      # after the initialiser was evaluated
    def lambda_(self, n, s): return s

    # -- expressions
    def expr(self, n, s):
        if n is None or s is None: return s
        if isinstance(n, list):
            for x in n: s = self.expr(x, s)
            return s
        k = n.get('k')
        if k == 'bin' and n.get('op') in ('&&', '||'):
            l, r = self.operands(n)
            T, F = self.cond(l, s)
            if n['op'] == '&&': T = self.expr(r, T)
            else: F = self.expr(r, F)
            s = join(T, F)
            return self.visit(n, s) if s is not None else None
        if k == 'cond':
            T, F = self.cond(n['c'], s)
            s = join(self.expr(n['t'], T), self.expr(n['e'], F))
            return self.visit(n, s) if s is not None else None
        if k == 'lambda': return self.lambda_(n, s)
        if k == 'throw':
            s = self.expr(n.get('e'), s)
            if s is not None: self.exits.append(('throw', n, s))
            return None
        for c in self.children(n):
            s = self.expr(c, s)
            if s is None: return None
        return self.visit(n, s)

    def operands(self, n):
        c = self.children(n)
        return c[0], c[1]

    def children(self, n):
        out = []
        items = list(n.items())
        if n.get('k') == 'asg': items = items[::-1]
        for key, v in items:
            if isinstance(v, dict) and ('k' in v): out.append(v)
            elif isinstance(v, list): out += [x for x in v if isinstance(x, dict) and 'k' in x]
        return out

    def cond(self, c, s):
        """states in which c is true / false"""
        if s is None: return None, None
        k = c.get('k')
        if k == 'un' and c.get('op') == '!':
            t, f = self.cond(self.children(c)[0], s)
            return f, t
        if k == 'bin' and c.get('op') in ('&&', '||'):
            l, r = self.operands(c)
            T, F = self.cond(l, s)
            if c['op'] == '&&':
                T2, F2 = self.cond(r, T)
                return T2, join(F, F2)
            T2, F2 = self.cond(r, F)
            return join(T, T2), F2
        if k == 'cast': return self.cond(self.children(c)[0], s) if self.children(c) else (s, s)
        s = self.expr(c, s)
        if s is None: return None, None
        return self.branch(c, s, True), self.branch(c, s, False)

    # -- statements: returns {'N': state, 'B': state, 'Cn': state}
    def stmt(self, n, s):
        k = n['k'] if n else None
        if s is None: return {}
        if n is None or k == 'null_stmt': return {'N': s}
        if k == 'block':
            out = {}
            for c in n['s']:
                r = self.stmt(c, s)
                for w in ('B', 'Cn'):
                    if r.get(w) is not None: out[w] = join(out.get(w), r[w])
                s = r.get('N')
                if s is None: break
            if s is not None:
                s = self.scope_end(n, s)
                out['N'] = s
            return out
        if k == 'decl':
            for v in n['v']:
                s = self.decl(v, s)
                if s is None: return {}
            return {'N': s}
        if k == 'if':
            out = {}
            if n.get('init'): s = self.stmt(n['init'], s).get('N')
            if n.get('cvar'): s = self.stmt(n['cvar'], s).get('N')
            T, F = self.cond(n['c'], s)
            rs = [self.stmt(n['t'], T), self.stmt(n['e'], F) if n.get('e') else {'N': F}]
            for r in rs:
                for w, x in r.items():
                    if x is not None: out[w] = join(out.get(w), x)
            return out
        if k in ('while', 'for', 'do', 'forrange'): return self.loop(n, s)
        if k == 'return':
            s = self.expr(n.get('e'), s)
            if s is not None: self.exits.append(('return', n, s))
            return {}
        if k == 'break': return {'B': s}
        if k == 'continue': return {'Cn': s}
        if k in ('case', 'default', 'label'): return self.stmt(n['s'], s)
        if k == 'switch':
            s = self.expr(n['c'], s)
            body = n['b']
            items = body['s'] if body and body['k'] == 'block' else [body]
            cur, out, hasdef = None, {}, False
            for it in items:
                while it is not None and it['k'] in ('case', 'default'):
                    hasdef |= it['k'] == 'default'
                    cur = join(cur, s)
                    it = it['s']
                r = self.stmt(it, cur) if cur is not None else {}
                if r.get('B') is not None: out['N'] = join(out.get('N'), r['B'])
                if r.get('Cn') is not None: out['Cn'] = join(out.get('Cn'), r['Cn'])
                cur = r.get('N')
            if cur is not None: out['N'] = join(out.get('N'), cur)
            if not hasdef: out['N'] = join(out.get('N'), s)
            return out
        if k == 'try':
            mark = len(self.exits)
            r = self.stmt(n['b'], s)
            thrown = [x for x in self.exits[mark:] if x[0] == 'throw']
            self.exits[mark:] = [x for x in self.exits[mark:] if x[0] != 'throw']
            es = s
            for _, _, x in thrown: es = join(es, x)
            es = join(es, r.get('N'))
            out = dict(r)
            for h in n['h']:
                for w, x in self.stmt(h['b'], es).items():
                    if x is not None: out[w] = join(out.get(w), x)
            return out
        if k in ('goto', 'otherstmt'): raise AnalysisError("unsupported statement %s" % k)
        s = self.expr(n, s)
        return {'N': s} if s is not None else {}

    def scope_end(self, n, s): return s

    def decl(self, v, s):
        if v.get('i') is not None: s = self.expr(v['i'], s)
        return self.declare(v, s) if s is not None else None

    def loop(self, n, s):
        k = n['k']
        if k == 'for' and n.get('i'): s = self.stmt(n['i'], s).get('N')
        if k == 'forrange': s = self.expr(n['r'], s)
        if k == 'do':
            r = self.stmt(n['b'], s)
            head = join(r.get('N'), r.get('Cn')); brk = r.get('B')
        else:
            head, brk = s, None
        out = None
        for _ in range(30):
            c = n.get('c')
            if c is not None and k != 'forrange': T, F = self.cond(c, head)
            else: T, F = head, (head if k == 'forrange' else None)
            if k == 'forrange' and n.get('v'): T = self.declare(n['v'], T) if isinstance(n['v'], dict) and T is not None else T
            r = self.stmt(n['b'], T) if T is not None else {}
            back = join(r.get('N'), r.get('Cn'))
            inc = n.get('n')
            if k == 'for' and inc and back is not None: back = self.expr(inc, back)
            brk = join(brk, r.get('B'))
            out = join(F, brk)
            new = join(head, back)
            if new == head: break
            head = new
        return {'N': out} if out is not None else {}

    def run(self, fn, s):
        r = self.stmt(fn['b'], s)
        if r.get('N') is not None: self.exits.append(('end', fn, r['N']))
        return self.exits
