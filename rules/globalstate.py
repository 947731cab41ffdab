"""P33: conversions share no mutable state"""
import re
from ._lib import *
from sa import effects
from sa.prog import walk, calls

ENTRY = ('arc_welder', 'arc_interpolation', 'gcode_position', 'gcode_parser', 'gcode_comment_processor', 'segmented_arc', 'segmented_shape', 'firmware', 'source_line_segment_statistics')
LOG = ('logger',)
HIDDEN = {'rand', 'srand', 'random', 'srandom', 'drand48', 'strtok', 'setlocale', 'std::setlocale', 'std::rand', 'std::srand', 'std::strtok', 'std::locale::global', 'setenv', 'putenv', 'getenv', 'std::getenv',
          'localtime', 'std::localtime', 'gmtime', 'asctime', 'ctime', 'chdir', 'fesetround', 'std::fesetround', 'lgamma', 'umask'}


def constant(ty):
    t = re.sub(r'(\s*\[\d*\])+$', '', ty).strip()
    if t.endswith('const'): return True
    if t.endswith('*') or t.endswith('&'): return False
    return t.startswith('const ')


def unwrap(n):
    while isinstance(n, dict) and n.get('k') in ('paren', 'cast', 'icast', 'tmp', 'mat', 'bindtmp') and (n.get('e') or n.get('a')):
        n = n.get('e') or n.get('a')
        if isinstance(n, list): n = n[0] if n else {}
    return n


def root(n, through=False):
    """the variable an access path starts at; with through, also behind pointer dereferences"""
    while True:
        n = unwrap(n)
        k = n.get('k') if isinstance(n, dict) else None
        if k == 'ref': return n
        if k == 'mem':
            if n.get('arrow') and not through: return None
            n = n.get('b')
        elif k == 'idx': n = n.get('b')
        elif k == 'un' and n.get('op') == '*' and through: n = n.get('e') or n.get('a')
        elif k == 'un' and n.get('op') in ('&', '++', '--', 'post++', 'post--'): n = n.get('e') or n.get('a')
        elif k == 'bin' and n.get('op') in ('+', '-'): n = n.get('a')
        elif k == 'call' and n.get('nm') in ('operator[]', 'at', 'back', 'front', 'begin', 'end') and n.get('this'): n = n['this']
        elif k == 'call' and n.get('nm') == 'operator[]' and n.get('a'): n = n['a'][0]
        elif k == 'cond': n = n.get('t') or n.get('b')
        else: return None
        if n is None: return None


def key(n):
    if n is None: return None
    if n.get('dk') == 'global': return ('g', n.get('q') or n.get('n'))
    if n.get('dk') == 'static': return ('s', n.get('id'), n.get('n'))
    if n.get('dk') in ('local', 'param'): return ('l', n.get('id'))
    return None


def direct_target(n):
    """is the stored-to expression inside the variable itself (not behind a pointer held in it)?"""
    n = unwrap(n)
    while n.get('k') in ('mem', 'idx') or n.get('k') == 'call' and n.get('nm') in ('operator[]', 'at', 'back', 'front'):
        if n['k'] == 'mem':
            if n.get('arrow'): return False
            n = n['b']
        elif n['k'] == 'idx':
            b = unwrap(n['b'])
            if not re.search(r'\]$', b.get('ty', '') or '') and b.get('k') == 'ref' and b.get('dk') in ('local', 'param'): return False
            n = n['b']
        else: n = n.get('this') or n['a'][0]
        n = unwrap(n)
    return n.get('k') == 'ref'


def targets(f):
    """[(expression written, node)]"""
    for n in walk([f.get('b') or [], f.get('inits') or []]):
        k = n.get('k')
        if k == 'asg': yield n['a'], n
        elif k == 'un' and n.get('op') in ('++', '--', 'post++', 'post--'): yield n.get('e') or n.get('a'), n
        elif k == 'call':
            if n.get('this') is not None and n.get('nm') not in effects.CONSTM and not n.get('cm'): yield n['this'], n
            elif n.get('oper') in ('=', '+=', '<<=', '-=', '*=', '/=', '++', '--') and n.get('a'): yield n['a'][0], n
        if k in ('call', 'ctor'):
            for a, ty in zip(n.get('a', ()), n.get('pt', ())):
                ty = ty.strip()
                if ty.endswith('&') and not ty.endswith('&&') and not ty.startswith('const '): yield a, n


class State:
    def __init__(self, p):
        self.p = p
        self.ptr_memo = {}
        self.vars = {}
        for q, g in p.globals.items():
            if not constant(g.get('ty', '')): self.vars[('g', g['q'])] = g
        for f in p.funcs.values():
            for x in walk(f.get('b') or []):
                if x.get('k') == 'var' and x.get('st'):
                    if not constant(x.get('ty', '')): self.vars[('s', x['id'], x['n'])] = dict(x, q=f['q'] + '::' + x['n'])

    def aliases(self, f, seed):
        """local variables of f that point into the variables in seed: {local: variable}"""
        al = dict(seed)
        for _ in range(4):
            n = len(al)
            for x in walk(f.get('b') or []):
                if x.get('k') == 'var' and x.get('i') and ('*' in x.get('ty', '') or x.get('ty', '').endswith('&') or x.get('ty') == 'auto'):
                    if x.get('ty', '').startswith('const '): continue
                    r = key(root(x['i']))
                    t = r if r in self.vars else al.get(r)
                    if t and ('l', x['id']) not in al and self.address(x['i'], x.get('ty', ''), r, al): al[('l', x['id'])] = t
                elif x.get('k') == 'asg':
                    a = unwrap(x['a'])
                    if a.get('k') == 'ref' and a.get('dk') in ('local',) and '*' in (a.get('ty') or '*'):
                        r = key(root(x['b']))
                        t = r if r in self.vars else al.get(r)
                        if t and key(a) not in al and self.address(x['b'], a.get('ty') or '*', r, al): al[key(a)] = t
            if len(al) == n: break
        return al

    def address(self, e, ty, r, al):
        """the expression is an address inside the variable (or an alias), not a value read from it"""
        if ty.endswith('&'): return True
        if r in al: return True
        e = unwrap(e)
        if e.get('k') == 'un' and e.get('op') == '&': return True
        if e.get('k') == 'bin': return True
        if e.get('k') == 'ref': return '[' in self.vars[r].get('ty', '')
        return False

    def writes(self, f, seed=(), depth=3):
        """[(variable, node)] written by f, directly or through local pointers and pointer arguments"""
        al = self.aliases(f, dict(seed))
        out = []
        for e, n in targets(f):
            k = key(root(e))
            if k in self.vars and direct_target(e): out.append((k, n)); continue
            k = key(root(e, True))
            if k in al and not (unwrap(e).get('k') == 'ref' and not str(unwrap(e).get('ty', '')).endswith('&') and self.pointer(f, k)): out.append((al[k], n))
            elif k in self.vars and not direct_target(e) and '[' in self.vars[k].get('ty', '') and '*' not in self.vars[k].get('ty', ''): out.append((k, n))
        if depth:
            for c in calls(f.get('b') or []):
                g = self.p.funcs.get(c.get('fid')) or next((g for g in self.p.funcs.values() if g['q'] == c.get('f') and g.get('b')), None)
                for i, a in enumerate(c.get('a', ())):
                    r = key(root(a))
                    t = r if r in self.vars else al.get(r)
                    if not t or g is None or not g.get('b') or i >= len(g['p']): continue
                    ty = g['p'][i]['ty']
                    if not ty.endswith('*') or ty.startswith('const '): continue
                    if r in self.vars and not self.address(a, ty, r, al): continue
                    for v, n in self.writes(g, {('l', g['p'][i].get('id')): t}, depth - 1):
                        if v == t: out.append((t, c))
        return out

    def pointer(self, f, k):
        """assigning to the local itself moves the pointer, it does not write what it points to"""
        return not any(x.get('k') == 'var' and x.get('id') == k[1] and x.get('ty', '').endswith('&') for x in walk(f.get('b') or [])) and not any(q.get('id') == k[1] and q['ty'].endswith('&') for q in f['p'])


def is_log(p, ty):
    t = ty.replace('const ', '').replace('*', '').replace('&', '').strip()
    return t in LOG or any(b in LOG for b in bases(p, t))


def bases(p, c):
    r = p.records.get(c)
    for b in (r or {}).get('bases', ()):
        yield b
        yield from bases(p, b)


@rule('P33', "Static: effect analysis over the call graph. Every non-constant object with static storage is enumerated; none may be written (directly, through local pointers or pointer arguments) or hold values written elsewhere that the conversions read; statics may not be initialised from run data; stateful library functions are not called.")
def p33(cx):
    p = cx.p
    S = State(p)
    entries = set(ENTRY)
    for c in p.records:
        if any(b in entries for b in bases(p, c)): entries.add(c)
    roots = [i for i, f in p.funcs.items() if f.get('cls') in entries]
    stop = tuple({f['q'] for f in p.funcs.values() if f.get('cls') and (f['cls'] in LOG or any(b in LOG for b in bases(p, f['cls'])))})
    proc = effects.reach(p, roots, stop)
    cx.need(len(proc), 100, 'functions of a conversion')
    cx.counts['mutable objects of static storage'] = len(S.vars)
    wr = {}
    for i, f in p.funcs.items():
        if not f.get('b') or f['q'] in stop: continue
        for v, n in S.writes(f): wr.setdefault(v, []).append((i, n))
    done = set()
    for i in sorted(proc, key=str):
        f = p.funcs[i]
        if not f.get('b'): continue
        cx.funcs.add(f['q'])
        bad = []
        for v, ws in wr.items():
            g = S.vars[v]
            if is_log(p, g.get('ty', '')): continue
            for j, n in ws:
                if j == i: bad.append((g['q'], n, 'written'))
            if not any(j == i for j, _ in ws):
                for x in walk([f['b'], f.get('inits') or []]):
                    if x.get('k') == 'ref' and key(x) == v:
                        w = p.funcs[ws[0][0]]
                        bad.append((g['q'], x, 'read, and written by ' + w['q'])); break
        cx.ob(not bad, 'shared', f, "a conversion neither writes nor reads changing data of static storage", node=bad[0][1] if bad else None, detail=bad and "%s is %s" % (bad[0][0], bad[0][2]))
        for x in walk(f['b']):
            if x.get('k') == 'var' and x.get('st') and x.get('i'):
                dep = [y for y in walk(x['i']) if y.get('k') == 'this' or y.get('k') == 'ref' and y.get('dk') in ('param', 'local')]
                cx.ob(not dep, 'first', f, "data of static storage is not initialised from the values of the first conversion", node=x, detail=dep and "%s is initialised from %s" % (x['n'], dep[0].get('n', 'this')))
        hid = [c for c in calls([f['b'], f.get('inits') or []]) if (c.get('f') or '') in HIDDEN]
        cx.ob(not hid, 'library', f, "no library function with hidden state is called", node=hid[0] if hid else None, detail=hid and hid[0].get('f'))
