"""Which functions may write which member, directly or through what they call."""
from .prog import walk, calls

CONSTM = {'size', 'length', 'empty', 'c_str', 'data', 'str', 'find', 'rfind', 'substr', 'compare', 'begin', 'end', 'at', 'count', 'is_open', 'fail', 'bad', 'good', 'eof', 'operator bool', 'operator!',
          'operator[]', 'cbegin', 'cend', 'front', 'back', 'tellg', 'tellp', 'rbegin', 'rend', 'precision', 'operator==', 'operator!=', 'operator*', 'operator->', 'find_first_of', 'find_last_of', 'capacity'}


def chain(n):
    """member nodes along an access path without pointer dereference, outermost object last"""
    out = []
    while isinstance(n, dict):
        k = n.get('k')
        if k == 'mem':
            out.append(n)
            if n.get('arrow') and n['b'].get('k') != 'this': break
            n = n['b']
        elif k in ('paren', 'cast'): n = n.get('e') or n.get('a')
        elif k == 'idx': n = n.get('b') if n.get('b', {}).get('k') in ('mem', 'paren', 'cast') else None
        elif k == 'call' and n.get('nm') in ('operator[]', 'at', 'back', 'front') and n.get('this'): n = n['this']
        elif k == 'call' and n.get('nm') in ('operator[]',) and n.get('a'): n = n['a'][0]
        else: break
    return out


def direct(f):
    """[(member 'class::field', node)] written by f itself"""
    out = []
    for n in walk(f['b']):
        if not isinstance(n, dict): continue
        k = n.get('k')
        if k == 'asg': t = [n['a']]
        elif k == 'un' and n.get('op') in ('++', '--', 'post++', 'post--', '&'): t = [n.get('e') or n.get('a')]
        elif k == 'call':
            t = []
            nm = n.get('nm')
            if n.get('this') is not None and nm not in CONSTM and not n.get('cm'): t.append(n['this'])
            for a, ty in zip(n.get('a', ()), n.get('pt', ())):
                ty = ty.strip()
                if ty.endswith('&') and not ty.endswith('&&') and not ty.startswith('const '): t.append(a)
        elif k == 'ctor':
            t = []
            for a, ty in zip(n.get('a', ()), n.get('pt', ())):
                ty = ty.strip()
                if ty.endswith('&') and not ty.endswith('&&') and not ty.startswith('const '): t.append(a)
        else: continue
        for x in t:
            for m in chain(x): out.append((m.get('q'), n))
    return out


def index(p):
    if not hasattr(p, '_eff'):
        by = {}
        for i, f in p.funcs.items(): by.setdefault(f['q'], []).append(i)
        over = {}
        for i, f in p.funcs.items():
            if '::' in f['q']:
                over.setdefault(f['q'].rsplit('::', 1)[1], []).append(i)
        p._eff = (by, over, {})
    return p._eff


def reach(p, roots, stop=()):
    """ids of the functions reachable from the ids or names in roots"""
    by, over, _ = index(p)
    work = []
    for r in roots: work += by.get(r, [r] if r in p.funcs else [])
    seen = set()
    while work:
        i = work.pop()
        if i in seen or p.funcs[i]['q'] in stop: continue
        seen.add(i)
        for c in calls(p.funcs[i]):
            for j in by.get(c.get('f'), ()): work.append(j)
            if c.get('virt'):
                for j in over.get(c.get('nm'), ()): work.append(j)
        for n in walk(p.funcs[i]['b']):
            if isinstance(n, dict) and n.get('k') in ('ctor', 'new') and n.get('cls') and '::' not in n['cls']:
                for j in by.get(n['cls'] + '::' + n['cls'], ()): work.append(j)
            if isinstance(n, dict) and n.get('k') == 'ref' and n.get('dk') == 'fn':
                for j in by.get(n.get('q'), ()): work.append(j)
    return seen


def writes(p, roots, stop=()):
    """{member: [(function, node)]} written by the functions reachable from roots"""
    out = {}
    memo = index(p)[2]
    for i in reach(p, roots, stop):
        if i not in memo: memo[i] = direct(p.funcs[i])
        for m, n in memo[i]: out.setdefault(m, []).append((p.funcs[i], n))
    return out
