"""P35: the Python interface

Path-sensitive typestate over the syntax tree of every function of the extension: for each path the nullness of every object, the references owned, the pending exception and the
interpreter lock. Native calls that can fail fork the path. Project helpers are inlined, larger project functions enter through their summaries.
"""
import re
from ._lib import *
from sa.prog import walk, calls

NEW = {'PyModule_Create2', 'PyModule_Create', 'Py_BuildValue', 'PyUnicode_FromString', 'PyUnicode_FromStringAndSize', 'PyUnicode_DecodeUTF8', 'PyBytes_FromString', 'PyObject_CallObject', 'PyObject_CallMethod', 'PyObject_CallMethodObjArgs', 'PyObject_Call',
       'PyObject_CallFunctionObjArgs', 'PyObject_CallFunction', 'PyImport_ImportModule', 'PyImport_ImportModuleNoBlock', 'PyObject_GetAttrString', 'PyObject_GetAttr', 'PyErr_NewException', 'PyModule_Create2',
       'PyDict_New', 'PyLong_FromLong', 'PyFloat_FromDouble', 'PyTuple_New', 'PyTuple_Pack', 'PyObject_Str', 'PyObject_Repr', 'PyList_New', 'PyDict_Copy', 'PyObject_GetItem', 'PyMapping_GetItemString', 'PyNumber_Long', 'PyNumber_Float'}
BORROWED = {'PyDict_GetItemString': False, 'PyDict_GetItem': False, 'PyDict_GetItemWithError': True, 'PyTuple_GetItem': True, 'PyList_GetItem': True, 'PyImport_AddModule': True}
TEXT = {'PyUnicode_AsUTF8': True, 'PyBytes_AsString': True, 'PyUnicode_AsUTF8AndSize': True}
NUM = {'PyLong_AsLong', 'PyFloat_AsDouble', 'PyLong_AsDouble', 'PyLong_AsLongLong', 'PyLong_AsUnsignedLong', 'PyObject_IsTrue', 'PyLong_AsInt', '_PyLong_AsInt', 'PyNumber_AsSsize_t', 'PyObject_RichCompareBool'}
QUIET = {'PyDict_Check', 'PyCallable_Check', 'PyType_FastSubclass', 'PyObject_TypeCheck', 'Py_IS_TYPE', 'Py_TYPE', 'PyType_HasFeature', 'PyModule_GetState', 'PyDict_SetItemString', 'Py_DecodeLocale', 'PyMem_RawFree'}
CALLS_BACK = {'PyObject_CallObject', 'PyObject_CallMethod', 'PyObject_CallMethodObjArgs', 'PyObject_Call', 'PyObject_CallFunction', 'PyObject_CallFunctionObjArgs', 'Py_BuildValue', 'PyUnicode_FromString', 'PyDict_SetItemString'}
UNK = ('unk',)
NULL = ('null',)
LIMIT = 6000


def strip(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren', 'tmp', 'mat', 'bindtmp', 'icast') and n.get('e'): n = n['e']
    return n


class St:
    __slots__ = ('vars', 'owned', 'err', 'gil', 'types')

    def __init__(self, vars=(), owned=(), err=None, gil=(), types=()):
        self.vars, self.owned, self.err, self.gil, self.types = dict(vars), dict(owned), err, tuple(gil), dict(types)

    def copy(self): return St(self.vars, self.owned, self.err, self.gil, self.types)

    def key(self): return (frozenset(self.vars.items()), frozenset(self.owned.items()), self.err, self.gil, frozenset(self.types.items()))


def uniq(pairs):
    out = {}
    for s, v in pairs: out.setdefault((s.key(), v), (s, v))
    if len(out) > LIMIT: raise AnalysisError('P35: too many paths')
    return list(out.values())


class Py:
    def __init__(self, cx, p):
        self.cx, self.p = cx, p
        self.sums = {}
        self.found = {}
        self.seen = set()
        self.stack = []
        self.sites = {}

    # -- reports: one obligation per construct, failed by any path
    def check(self, ok, code, msg, node, detail=None):
        f = self.stack[-1]
        k = (f['fid'], code, id(node), msg)
        r = self.found.setdefault(k, [True, code, f, msg, node, None])
        if not ok and r[0]: r[0], r[5] = False, detail

    def report(self):
        for ok, code, f, msg, node, detail in self.found.values(): self.cx.ob(ok, code, f, msg, node=node, detail=detail)

    # -- expressions: [(state, value)]
    def evs(self, es, s):
        out = [(s, ())]
        for e in es:
            nxt = []
            for s1, vs in out:
                for s2, v in self.ev(e, s1): nxt.append((s2, vs + (v,)))
            out = uniq(nxt)
        return out

    def children(self, n):
        out = []
        for key, v in n.items():
            if isinstance(v, dict) and 'k' in v: out.append(v)
            elif isinstance(v, list): out += [x for x in v if isinstance(x, dict) and 'k' in x]
        return out

    def ev(self, n, s):
        if n is None: return [(s, UNK)]
        k = n.get('k')
        if k in ('cast', 'paren', 'tmp', 'mat', 'bindtmp') and n.get('e'):
            r = self.ev(n['e'], s)
            return [(x, NULL if v == ('c', 0) else v) for x, v in r] if k == 'cast' and str(n.get('ty')).endswith('*') else r
        if k == 'null': return [(s, NULL)]
        if k in ('int', 'bool'):
            if k == 'int' and '*' in str(n.get('ty')): return [(s, NULL)]
            return [(s, ('c', int(n.get('v', n.get('cv', 0)))))]
        if k == 'ref':
            if n.get('dk') in ('local', 'param'): return [(s, s.vars.get(n['id'], UNK))]
            if n.get('cv') is not None: return [(s, ('c', int(n['cv'])))]
            return [(s, UNK)]
        if k == 'mem' and member(n): return [(s, s.vars.get(member(n), UNK))]
        if k == 'un':
            op, e = n.get('op'), n.get('e') or n.get('a')
            if op == '!':
                T, F = self.cond(n, s)
                return uniq([(x, ('c', 1)) for x in T] + [(x, ('c', 0)) for x in F])
            if op == '-' and strip(e).get('k') == 'int': return [(s, ('c', -int(strip(e).get('v', strip(e).get('cv', 0)))))]
            if op == '&':
                t = strip(e)
                if t.get('k') == 'ref' and t.get('dk') in ('local', 'param'): return [(s, ('ptr', t['id']))]
            return [(a, a.vars.get(v[1], UNK) if op == '*' and v[0] == 'ptr' else UNK) for a, v in self.ev(e, s)]
        if k == 'bin' and n.get('op') in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
            T, F = self.cond(n, s)
            return uniq([(x, ('c', 1)) for x in T] + [(x, ('c', 0)) for x in F])
        if k == 'cond':
            T, F = self.cond(n['c'], s)
            return uniq([r for x in T for r in self.ev(n['t'], x)] + [r for x in F for r in self.ev(n['e'], x)])
        if k == 'asg':
            out = []
            for s1, v in self.ev(n['b'], s):
                t = strip(n['a'])
                if t.get('k') == 'ref' and t.get('dk') in ('local', 'param'):
                    s1 = s1.copy()
                    if n.get('op', '=') != '=': v = UNK
                    self.set(s1, t['id'], v)
                    out.append((s1, v))
                elif t.get('k') == 'un' and t.get('op') == '*':
                    for s2, p in self.ev(t.get('e') or t.get('a'), s1):
                        s2 = s2.copy()
                        if p[0] == 'ptr': self.set(s2, p[1], v)
                        elif p[0] == 'outp': s2.vars[('out', p[1])] = v
                        else: self.escape(s2, v)
                        out.append((s2, v))
                else:
                    for s2, _ in self.ev(t, s1):
                        s2 = s2.copy()
                        m = member(t)
                        if not (m and len(m) == 3 and not t.get('arrow') and not self.releases(m[1])): self.escape(s2, v)
                        if m: s2.vars[m] = v if n.get('op', '=') == '=' else UNK
                        out.append((s2, v))
            return uniq(out)
        if k == 'call': return self.call(n, s)
        if k in ('lambda',): return [(s, UNK)]
        out = [(s, UNK)]
        for c in self.children(n):
            out = uniq([(s2, UNK) for s1, _ in out for s2, _ in self.ev(c, s1)])
        return out

    def set(self, s, vid, v):
        s.vars[vid] = v
        s.types.pop(vid, None)

    def releases(self, q):
        """some function gives back the reference kept in this member"""
        if self.freed is None:
            self.freed = {m['q'] for f in self.p.funcs.values() if mine(f) and f.get('b') for c in walk(f['b']) if c.get('k') == 'call' and 'DECREF' in str(c.get('nm') or c.get('f'))
                          for m in walk(c) if m.get('k') == 'mem' and m.get('q')}
        return q in self.freed

    freed = None

    def escape(self, s, v):
        """stored outside the function: the reference belongs to the place it is stored in"""
        if v[0] == 'obj': s.vars[('esc', v[1])] = UNK

    def drop(self, s, site):
        n = s.owned.get(site, 0) - 1
        if n > 0: s.owned[site] = n
        else: s.owned.pop(site, None)

    def newobj(self, s, n, kind, name):
        site = (self.stack[-1]['q'], n.get('l'), id(n))
        self.sites[site] = name
        if kind == 'new': s.owned[site] = s.owned.get(site, 0) + 1
        return ('obj', site, kind)

    def usable(self, s, v, n, name):
        self.check(v != NULL, 'null', "objects that may be missing are tested before %s" % name, n, "a NULL object reaches %s" % name)
        if v[0] == 'obj' and v[2] == 'new':
            self.check(v[1] in s.owned or ('esc', v[1]) in s.vars, 'released', "no reference is used after it was given back", n, "%s uses the result of %s after its release" % (name, self.sites.get(v[1])))

    def pending(self, s, n, name):
        self.check(s.err is None, 'pending', "no exception is pending when Python is called again (%s)" % name, n, s.err and "%s failed at line %s and its exception was neither raised nor cleared" % s.err[:2])
        if s.err is not None:
            s = s.copy(); s.err = None
        return s

    def call(self, n, s):
        nm = n.get('nm') or (n.get('f') or '').split('::')[-1]
        args = list(n.get('a') or [])
        fid = n.get('fid')
        g = self.p.funcs.get(fid)
        out = []
        pre = [(s, ())] if n.get('this') is None else [(a, ()) for a, _ in self.ev(n['this'], s)]
        for s0, _ in pre:
            for s1, vs in self.evs(args, s0):
                out += self.apply(n, nm, g, args, vs, s1.copy())
        return uniq(out)

    def apply(self, n, nm, g, args, vs, s):
        if g is not None and g.get('b'): return self.project(n, nm, g, args, vs, s)
        if nm in ('Py_INCREF', 'Py_XINCREF', 'Py_NewRef', 'Py_XNewRef'):
            v = vs[0]
            if v[0] == 'obj': s.owned[v[1]] = s.owned.get(v[1], 0) + 1
            elif 'X' not in nm: self.usable(s, v, n, nm)
            return [(s, v)]
        if nm in ('Py_DECREF', 'Py_XDECREF', 'Py_CLEAR'):
            v = vs[0]
            if 'X' not in nm: self.check(v != NULL, 'null', "objects that may be missing are tested before %s" % nm, n, "a NULL object reaches " + nm)
            if v[0] == 'obj':
                self.check(v[1] in s.owned or ('esc', v[1]) in s.vars, 'release', "only references that are owned are given back", n, "the %s reference of %s is given back" % ('borrowed' if v[2] != 'new' else 'already released', self.sites.get(v[1])))
                self.drop(s, v[1])
            return [(s, UNK)]
        if nm == 'PyErr_Occurred': return [(s, ('obj', 'err', 'borrowed') if s.err else NULL)]
        if nm in ('PyErr_Clear', 'PyErr_Print', 'PyErr_PrintEx', 'PyErr_WriteUnraisable'): s.err = None; return [(s, UNK)]
        if nm in ('PyErr_SetString', 'PyErr_Format', 'PyErr_SetObject', 'PyErr_SetNone', 'PyErr_NoMemory'): s.err = (nm, n.get('l'), 'set'); return [(s, NULL)]
        if nm == 'PyErr_Fetch':
            for i, v in enumerate(vs):
                if v[0] == 'ptr':
                    if s.err:
                        site = ('fetched', n.get('l'), i)
                        self.sites[site] = 'PyErr_Fetch'
                        s.owned[site] = 1
                        s.vars[v[1]] = ('obj', site, 'new')
                    else: s.vars[v[1]] = NULL
            s.err = None
            return [(s, UNK)]
        if nm == 'PyErr_Restore':
            for v in vs:
                if v[0] == 'obj': self.drop(s, v[1])
            s.err = (nm, n.get('l'), 'set')
            return [(s, UNK)]
        if nm == 'PyGILState_Ensure':
            t = ('gil', n.get('l'))
            s.gil += (t,)
            return [(s, t)]
        if nm == 'PyGILState_Release':
            self.check(bool(s.gil) and (vs[0] == UNK or vs[0] == s.gil[-1]), 'lock', "the interpreter lock is given back once, in the order taken", n, "the lock is not held here")
            s.gil = s.gil[:-1]
            return [(s, UNK)]
        if nm in ('PyEval_SaveThread', 'PyEval_RestoreThread'): return [(s, UNK)]
        if nm == 'PyArg_ParseTuple' or nm == 'PyArg_Parse' or nm == 'PyArg_ParseTupleAndKeywords':
            self.format(n, nm, args)
            ok, bad = s.copy(), s.copy()
            for v in vs[2:]:
                if v[0] == 'ptr': ok.vars[v[1]] = ('obj', ('parsed', n.get('l'), v[1]), 'borrowed')
            bad.err = (nm, n.get('l'), 'set')
            return [(ok, ('c', 1)), (bad, ('c', 0))]
        if nm in NEW:
            if not nm.endswith('_FromString'): s = self.pending(s, n, nm)
            if nm == 'Py_BuildValue': self.format(n, nm, args)
            for a, v in zip(args, vs):
                if '_object' in str(a.get('ty')) and not (strip(a).get('k') == 'null'):
                    if nm == 'PyErr_NewException' or nm.endswith('ObjArgs') and v == NULL and strip(a).get('k') == 'null': continue
                    self.usable(s, v, n, nm)
            bad = s.copy(); bad.err = (nm, n.get('l'), 'set')
            if nm == 'Py_BuildValue' and strip(args[0]).get('k') == 'str':
                units = re.findall(r'[a-zA-Z]', strip(args[0])['v'])
                for u, v in zip(units, vs[1:]):
                    if u == 'N' and v[0] == 'obj':
                        self.drop(s, v[1]); self.drop(bad, v[1])
            return [(s, self.newobj(s, n, 'new', nm)), (bad, NULL)]
        if nm in BORROWED:
            s = self.pending(s, n, nm)
            self.usable(s, vs[0], n, nm)
            bad = s.copy()
            if BORROWED[nm]: bad.err = (nm, n.get('l'), 'set')
            return [(s, self.newobj(s, n, 'borrowed', nm)), (bad, NULL)]
        if nm in TEXT or nm in NUM:
            s = self.pending(s, n, nm)
            self.usable(s, vs[0], n, nm)
            t = strip(args[0])
            ty = s.types.get(t.get('id')) if t.get('k') == 'ref' else None
            good = [(s, ('txt',) if nm in TEXT else ('num',))]
            if nm == 'PyFloat_AsDouble' and ty == 'float': return good
            bad = s.copy(); bad.err = (nm, n.get('l'), 'set')
            return good + [(bad, NULL if nm in TEXT else ('c', -1))]
        if nm in QUIET or nm.startswith('Py') or nm.startswith('_Py'):
            for a, v in zip(args, vs):
                if '_object' in str(a.get('ty')) and nm not in ('Py_SetProgramName',): self.usable(s, v, n, nm)
            if nm in CALLS_BACK: s = self.pending(s, n, nm)
            return [(s, UNK)]
        # a foreign function: references handed over by value stay ours, NULL text is not allowed
        for a, v in zip(args, vs):
            if v == NULL and strip(a).get('k') == 'ref' and 'string' in str(n.get('f')): self.check(False, 'null', "text that may be missing is tested before it is used", n, "NULL text is assigned")
            elif 'string' in str(n.get('f')) and strip(a).get('k') == 'ref' and 'char' in str(a.get('ty')): self.check(True, 'null', "text that may be missing is tested before it is used", n)
        for i, v in enumerate(vs):
            if v[0] == 'ptr': s.vars[v[1]] = UNK
        return [(s, UNK)]

    # -- project functions
    def logger(self, g): return g.get('cls') == 'py_logger' and g['q'].split('::')[-1] in ('log', 'log_exception')

    def project(self, n, nm, g, args, vs, s):
        if self.logger(g) and not self.logger(self.stack[-1]):
            exc = nm == 'log_exception' or len(vs) == 4 and vs[3] == ('c', 1)
            if exc: s.err = ('log_exception', n.get('l'), 'set')
            else: s = self.pending(s, n, 'log')
            return [(s, UNK)]
        if not mine(g):
            if any(v[0] == 'ptr' for v in vs):
                for v in vs:
                    if v[0] == 'ptr': s.vars[v[1]] = UNK
            if g['q'].split('::')[-1] == 'process': s = self.pending(s, n, 'process')
            return [(s, UNK)]
        if self.logger(g) or g['q'].split('::')[0] == 'gcode_arc_converter' or len(list(walk(g['b']))) < 60 and not g.get('ctor'):
            if any(x is g for x in self.stack): return [(s, UNK)]
            return self.inline(g, args, vs, s, n)
        out = []
        if any('_object' in str(a.get('ty')) for a in args) or '_object' in str(n.get('ty')): s = self.pending(s, n, g['q'])
        for ret, err, outs in self.summary(g):
            t = s.copy()
            for m in [m for m in t.vars if isinstance(m, tuple) and m[0] == 'm']: t.vars.pop(m)
            if err: t.err = (g['q'], n.get('l'), 'set')
            for i, o in outs:
                if i < len(vs) and vs[i][0] == 'ptr':
                    t.vars[vs[i][1]] = self.newobj(t, args[i], 'new' if o == 'owned' else 'borrowed', g['q']) if o in ('owned', 'borrowed') else NULL if o == 'null' else UNK
            v = self.newobj(t, n, 'new' if ret == 'owned' else 'borrowed', g['q']) if ret in ('owned', 'borrowed') else NULL if ret == 'null' else ret if isinstance(ret, tuple) else UNK
            out.append((t, v))
        return out

    def inline(self, g, args, vs, s, n):
        inner = s.copy()
        keep = dict(s.vars)
        for prm, v, a in zip(g['p'], vs, args):
            inner.vars[prm.get('id')] = v
            t = strip(a)
            ty = s.types.get(t.get('id')) if t.get('k') == 'ref' else None
            if ty: inner.types[prm.get('id')] = ty
        self.stack.append(g)
        try: ends = self.body(g, inner)
        finally: self.stack.pop()
        out = []
        for s2, v in ends:
            s2 = s2.copy()
            s2.vars = {k: x for k, x in {**keep, **s2.vars}.items() if k in keep or isinstance(k, tuple) and k[0] in ('m', 'esc')}
            s2.types = {k: x for k, x in s2.types.items() if k in keep}
            out.append((s2, v))
        return uniq(out)

    def summary(self, g):
        if g['fid'] not in self.sums:
            self.sums[g['fid']] = []
            res = set()
            try: ends = self.function(g)
            except AnalysisError as e:
                self.cx.undecided.append((g['q'], str(e)))
                self.sums[g['fid']] = [('unk', False, ())]
                return self.sums[g['fid']]
            for s, v in ends:
                outs = []
                for k, x in s.vars.items():
                    if isinstance(k, tuple) and k[0] == 'out': outs.append((k[1], ('owned' if own(s, x) else 'borrowed') if x[0] == 'obj' else 'null' if x == NULL else 'unk'))
                ret = ('owned' if own(s, v) else 'borrowed') if v[0] == 'obj' else 'null' if v == NULL else v if v[0] == 'c' else 'unk'
                res.add((ret, bool(s.err), tuple(sorted(outs))))
            self.sums[g['fid']] = sorted(res, key=str)
        return self.sums[g['fid']]

    # -- conditions
    def cond(self, c, s):
        k = c.get('k')
        if k in ('cast', 'paren') and c.get('e') and c.get('k') != 'call': return self.cond(c['e'], s)
        if k == 'un' and c.get('op') == '!':
            T, F = self.cond(c.get('e') or c.get('a'), s)
            return F, T
        if k == 'bin' and c.get('op') in ('&&', '||'):
            T, F = self.cond(c['a'], s)
            t2, f2 = [], []
            for x in (T if c['op'] == '&&' else F):
                a, b = self.cond(c['b'], x)
                t2 += a; f2 += b
            return (dedup(t2), dedup(F + f2)) if c['op'] == '&&' else (dedup(T + t2), dedup(f2))
        if k == 'bin' and c.get('op') in ('==', '!=', '<', '>', '<=', '>='):
            T, F = [], []
            for s1, (a, b) in self.evs([c['a'], c['b']], s):
                r = compare(c['op'], a, b)
                if r is not False: T.append(s1)
                if r is not True: F.append(s1)
            return dedup(T), dedup(F)
        T, F = [], []
        for s1, v in self.ev(c, s):
            t = truth_of(v)
            ty = None
            x = strip(c)
            if x.get('k') == 'call' and (x.get('nm') in ('Py_IS_TYPE', 'PyObject_TypeCheck')) and x.get('a'):
                w = strip(x['a'][0]); tn = str(x['a'][1])
                if w.get('k') == 'ref': ty = (w['id'], 'float' if 'PyFloat_Type' in tn else 'long' if 'PyLong_Type' in tn else None)
            if t is not False:
                s2 = s1
                if ty and ty[1]: s2 = s1.copy(); s2.types[ty[0]] = ty[1]
                T.append(s2)
            if t is not True: F.append(s1)
        return dedup(T), dedup(F)

    # -- statements: {'N': [states], 'B': [...], 'R': [(state, value)]}
    def stmt(self, n, s):
        k = n.get('k') if n else None
        if n is None or k == 'null_stmt': return {'N': [s]}
        if k == 'block':
            cur, out = [s], {}
            for c in n['s']:
                nxt = []
                for x in cur:
                    r = self.stmt(c, x)
                    nxt += r.pop('N', [])
                    for w, y in r.items(): out.setdefault(w, []).extend(y)
                cur = dedup([self.live(x, c) for x in nxt])
                if len(cur) > LIMIT: raise AnalysisError('P35: too many paths')
            out['N'] = cur
            return out
        if k == 'decl':
            cur = [s]
            for v in n['v']:
                nxt = []
                for x in cur:
                    if v.get('i'):
                        for s1, val in self.ev(v['i'], x):
                            s1 = s1.copy(); self.set(s1, v['id'], val); nxt.append(s1)
                    else: nxt.append(x)
                cur = dedup(nxt)
            return {'N': cur}
        if k == 'if':
            out = {}
            T, F = self.cond(n['c'], s)
            for xs, b in ((T, n['t']), (F, n.get('e'))):
                for x in xs:
                    for w, y in self.stmt(b, x).items(): out.setdefault(w, []).extend(y)
            return out
        if k == 'return':
            return {'R': self.ev(n['e'], s) if n.get('e') else [(s, UNK)]}
        if k == 'break': return {'B': [s]}
        if k == 'continue': return {'Cn': [s]}
        if k in ('case', 'default', 'label'): return self.stmt(n['s'], s)
        if k == 'switch':
            out = {}
            body = n['b']
            items = body['s'] if body and body.get('k') == 'block' else [body]
            for s1, _ in self.ev(n['c'], s):
                hasdef = False
                starts = []
                for i, it in enumerate(items):
                    if it.get('k') in ('case', 'default'):
                        starts.append(i)
                        j = it
                        while j and j.get('k') in ('case', 'default'):
                            hasdef |= j['k'] == 'default'; j = j['s']
                for i in starts:
                    cur = [s1]
                    for it in items[i:]:
                        while it is not None and it.get('k') in ('case', 'default'): it = it['s']
                        nxt = []
                        for x in cur:
                            r = self.stmt(it, x)
                            nxt += r.pop('N', [])
                            out.setdefault('N', []).extend(r.pop('B', []))
                            for w, y in r.items(): out.setdefault(w, []).extend(y)
                        cur = dedup(nxt)
                    out.setdefault('N', []).extend(cur)
                if not hasdef: out.setdefault('N', []).append(s1)
            out['N'] = dedup(out.get('N', []))
            return out
        if k == 'do':
            r = self.stmt(n['b'], s)
            if once(n):
                r['N'] = dedup(r.get('N', []) + r.pop('B', []) + r.pop('Cn', []))
                return r
            out = {'N': list(r.get('B', []))}
            for w, z in r.items():
                if w not in ('N', 'B', 'Cn'): out.setdefault(w, []).extend(z)
            for x in r.get('N', []) + r.get('Cn', []):
                for w, z in self.stmt(dict(n, k='while'), x).items(): out.setdefault(w, []).extend(z)
            out['N'] = dedup(out['N'])
            return out
        if k in ('while', 'for', 'forrange'):
            out = {'N': []}
            cur = [s]
            if n.get('i') and k == 'for': cur = self.stmt(n['i'], s).get('N', [])
            done = {}
            for _ in range(6):
                nxt = []
                for x in cur:
                    if x.key() in done: continue
                    done[x.key()] = x
                    T, F = self.cond(n['c'], x) if n.get('c') else ([x], [x] if k == 'forrange' else [])
                    out['N'] += F
                    for y in T:
                        r = self.stmt(n['b'], y)
                        out['N'] += r.pop('B', [])
                        ends = r.pop('N', []) + r.pop('Cn', [])
                        for w, z in r.items(): out.setdefault(w, []).extend(z)
                        for z in ends: nxt += [q for q, _ in self.ev(n.get('n'), z)] if k == 'for' else [z]
                cur = dedup(nxt)
                if not cur: break
            out['N'] = dedup(out['N'])
            return out
        if k == 'try':
            return self.stmt(n.get('b'), s)
        return {'N': dedup([x for x, _ in self.ev(n, s)])}

    def live(self, s, stmt):
        """forget variables that are not mentioned after the statement just executed"""
        last = self.last[-1]
        pos = last['pos'].get(id(stmt))
        if pos is None: return s
        dead = [k for k in s.vars if not isinstance(k, tuple) and last['ref'].get(k, 10 ** 9) <= pos and k in last['mine']]
        if not dead: return s
        s = s.copy()
        for k in dead:
            s.vars.pop(k); s.types.pop(k, None)
        return s

    last = None

    def order(self, g):
        pos, ref, mine_, n = {}, {}, set(), [0]
        loop = [0]
        def go(x):
            if isinstance(x, list):
                for y in x: go(y)
                return
            if not isinstance(x, dict): return
            n[0] += 1
            if x.get('k') == 'ref' and x.get('id') is not None and x.get('dk') in ('local', 'param'): ref[x['id']] = n[0]
            if x.get('k') == 'var' and x.get('id') is not None: mine_.add(x['id'])
            for v in x.values():
                if isinstance(v, (dict, list)): go(v)
            pos[id(x)] = n[0]
        go(g['b'])
        if any(x.get('k') in ('while', 'for', 'do', 'forrange') and not once(x) for x in walk(g['b'])): mine_ = set()
        mine_ -= {strip(x.get('e') or x.get('a')).get('id') for x in walk(g['b']) if x.get('k') == 'un' and x.get('op') == '&'}
        return dict(pos=pos, ref=ref, mine=mine_)

    def body(self, g, s):
        self.last = (self.last or []) + [self.order(g)]
        try: r = self.stmt(g['b'], s)
        finally: self.last.pop()
        return uniq(list(r.get('R', [])) + [(x, UNK) for x in r.get('N', [])])

    def with_var(self, s, vid, v):
        s = s.copy(); s.vars[vid] = v
        return s

    def function(self, g):
        """analyse g on its own and check its exits; [(state, return value)]"""
        self.stack.append(g)
        self.cx.funcs.add(g['q'])
        s = St()
        for i, prm in enumerate(g['p']):
            if prm['ty'].replace(' ', '') in ('_object**', 'PyObject**'): s.vars[prm.get('id')] = ('outp', i)
        starts = [s]
        if self.logger(g):
            # failures are reported with the exception still pending, all else without one
            flags = [prm.get('id') for prm in g['p'] if prm['ty'] == 'bool']
            for vid in flags:
                starts = [self.with_var(x, vid, ('c', b)) for x in starts for b in (0, 1)]
            extra = []
            for x in starts:
                if g['q'].endswith('::log_exception') or any(x.vars.get(i) == ('c', 1) for i in flags):
                    y = x.copy(); y.err = ('the caller', g.get('l'), 'set'); extra.append(y)
            starts += extra
        try:
            ends = [r for x in starts for r in self.body(g, x)]
            q = g['q'].split('::')[-1]
            if q == 'log_exception':
                for s1, v in ends: self.check(s1.err is not None, 'silent', "an exception is set once a failure was reported", g['b'], "on one path none is set, and the caller returns NULL")
            rty = g.get('ret') or g.get('rty') or ''
            for s1, v in ends:
                own = dict(s1.owned)
                if v[0] == 'obj' and own.get(v[1]): own[v[1]] -= 1
                for k, x in s1.vars.items():
                    if isinstance(k, tuple) and k[0] == 'out' and x[0] == 'obj' and own.get(x[1]): own[x[1]] -= 1
                left = [self.sites.get(a) for a, c in own.items() if c > 0 and ('esc', a) not in s1.vars]
                self.check(not left, 'leak', "every reference taken is given back", g['b'], "on a path that ends here the reference from %s is kept" % ', '.join(str(x) for x in left[:3]))
                self.check(not s1.gil, 'lock', "the interpreter lock is given back on every path", g['b'], "it is still held")
                if self.logger(g): continue
                if v[0] == 'obj' and v[1] != 'err' and not g.get('cls'): self.check(bool(s1.owned.get(v[1]) or ('esc', v[1]) in s1.vars), 'borrowed', "results handed to the caller are owned", g['b'], "a borrowed reference is returned")
                if v[0] == 'obj': self.check(s1.err is None, 'pending', "no result is returned with an exception pending", g['b'], s1.err and "the exception of %s (line %s) is pending" % s1.err[:2])
                elif v == NULL: self.check(s1.err is not None, 'silent', "NULL is only returned with an exception set", g['b'], "NULL is returned without an exception")
                elif v == ('c', 1) or override(self.p, g): self.check(s1.err is None, 'pending', "no exception is left pending at the end", g['b'], s1.err and "the exception of %s (line %s) is pending" % s1.err[:2])
        finally: self.stack.pop()
        return ends

    # -- formats
    def format(self, n, nm, args):
        i = next((j for j, a in enumerate(args) if strip(a).get('k') == 'str'), None)
        if i is None: return
        fmt = strip(args[i])['v'].split(':')[0] if nm.startswith('PyArg') else strip(args[i])['v']
        rest = args[i + 1:]
        units = re.findall(r'[a-zA-Z][#!&]?', fmt)
        key = (id(n), 'fmt')
        if key in self.seen: return
        self.seen.add(key)
        need = sum(2 if u[-1] in '#!&' else 1 for u in units)
        self.check(need == len(rest), 'format', "the format has one unit for each value", n, "%d units, %d values" % (need, len(rest)))
        if need != len(rest): return
        ptr = nm.startswith('PyArg')
        for j, u in enumerate(units):
            if u[-1] in '#!&': return
            ty = re.sub(r'\bconst\b', '', promoted(rest[j])).replace(' ', '')
            if ptr: ty = ty[:-1] if ty.endswith('*') else ty
            want = {'i': ('int', 'bool', 'unsignedchar', 'char', 'short', 'enum'), 'l': ('long',), 'd': ('double', 'float') if not ptr else ('double',), 's': ('char*',), 'z': ('char*',), 'y': ('char*',), 'O': ('_object*', 'PyObject*'), 'N': ('_object*', 'PyObject*'), 'S': ('_object*',),
                    'I': ('unsignedint',), 'k': ('unsignedlong',), 'L': ('longlong',), 'n': ('long',), 'b': ('unsignedchar', 'char', 'int'), 'p': ('int',), 'h': ('short', 'int'), 'f': ('float', 'double')}.get(u)
            if want is None: continue
            ok = ty in want or re.match(r'(char)\[\d+\]$', ty) and u in 'szy' or 'enum' in want and '*' not in ty and not re.match(r'(unsigned|long|double|float|size_t|std::)', ty) and ty not in ('longlong',)
            self.check(bool(ok), 'format', "value %d is built with the format of its type" % (j + 1), rest[j], "unit '%s' for a value of type %s" % (u, promoted(rest[j])))
        if not ptr and fmt.startswith('{'): self.pairs(n, rest, units)

    def pairs(self, n, rest, units):
        """{key: value} pairs: a key that names a member of the object the values come from carries that member"""
        ks = [strip(a)['v'] for a, u in zip(rest[::2], units[::2]) if strip(a).get('k') == 'str']
        if len(ks) != len(rest) // 2: return
        self.check(len(set(ks)) == len(ks), 'key', "each key is given once", n, "repeated: %s" % [k for k in ks if ks.count(k) > 1][:2])
        for k, v in zip(ks, rest[1::2]):
            ms = [x for x in walk(v) if x.get('k') == 'mem' and x.get('q')]
            if not ms: continue
            cls = ms[0]['q'].rsplit('::', 1)[0]
            rec = self.p.records.get(cls)
            if rec and any(f['n'] == k for f in rec['f']): self.check(any(m['f'] == k for m in ms), 'key', "the value under a key is the member of that name", v, "key '%s' carries %s" % (k, ms[0]['f']))


def once(n): return n.get('k') == 'do' and strip(n.get('c') or {}).get('k') in ('int', 'bool') and int(strip(n['c']).get('v', strip(n['c']).get('cv', 0))) == 0


def member(n):
    """key of a member of the object the function runs on, or of a local one"""
    b = strip(n.get('b') or n.get('e') or {})
    if n.get('k') != 'mem' or not n.get('q') or '_object' not in str(n.get('ty')): return None
    return ('m', n['q']) if b.get('k') == 'this' else ('m', n['q'], b['id']) if b.get('k') == 'ref' and b.get('dk') in ('local', 'param') else None


def own(s, v): return s.owned.get(v[1]) or ('esc', v[1]) in s.vars


def promoted(a):
    t = a.get('ty', '')
    s = a
    if a.get('k') == 'cast' and a.get('imp') and a.get('ck') == 'IntegralCast': return t
    return t


def compare(op, a, b):
    def is_ptr(x): return x == NULL or x[0] in ('obj', 'txt', 'ptr', 'outp')
    if op in ('==', '!='):
        r = None
        if is_ptr(a) and is_ptr(b) and NULL in (a, b): r = a == b
        elif a[0] == 'c' and b == NULL: r = a[1] == 0
        elif b[0] == 'c' and a == NULL: r = b[1] == 0
        elif a[0] == 'c' and b[0] == 'c': r = a[1] == b[1]
        elif {a[0], b[0]} == {'txt', 'c'}: r = False
        return r if r is None or op == '==' else not r
    if a[0] == 'c' and b[0] == 'c': return {'<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[op]
    return None


def truth_of(v):
    if v == NULL: return False
    if v[0] in ('obj', 'txt', 'ptr'): return True
    if v[0] == 'c': return bool(v[1])
    return None


def dedup(ss):
    out = {}
    for s in ss: out.setdefault(s.key(), s)
    return list(out.values())


def mine(g): return (g.get('file') or '').startswith('PyArcWelder/')


def override(p, g):
    """overrides a function of the converter, which knows nothing of Python exceptions"""
    c = g.get('cls')
    def up(c):
        for b in (p.records.get(c) or {}).get('bases', ()):
            yield b
            yield from up(b)
    n = g['q'].split('::')[-1]
    return any(f['q'].split('::')[-1] == n and not mine(f) for b in up(c) for f in p.funcs.values() if f.get('cls') == b)


@rule('P35', "Static: path-sensitive typestate analysis of the Python extension over the resolved syntax tree: nullness, reference ownership, pending exception and interpreter lock per path; format strings against the types of the values; keys against the members they carry.")
def p35(cx):
    p = cx.p
    A = Py(cx, p)
    fs = [f for f in p.funcs.values() if mine(f) and f.get('b') and f['q'] != 'main']
    cx.need(len(fs), 8, 'functions of the extension')
    for f in fs:
        if f['q'].startswith('gcode_arc_converter::') or f['q'].startswith('PyArcWelder_') or f.get('impl'): continue
        A.summary(f)
    A.report()
    settings(cx)


def settings(cx):
    """each setting comes from the entry of its own name"""
    p = cx.p
    for f in p.funcs.values():
        if not mine(f) or not f.get('b'): continue
        item = {}
        for x in walk(f['b']):
            if x.get('k') == 'var' and x.get('i'):
                c = strip(x['i'])
                if c.get('k') == 'call' and c.get('nm') == 'PyDict_GetItemString' and strip(c['a'][1]).get('k') == 'str': item[x['id']] = {strip(c['a'][1])['v']}
        keys = {k for v in item.values() for k in v}
        for _ in range(4):
            for x in walk(f['b']):
                if x.get('k') == 'var' and x.get('i') and x['id'] not in item:
                    ks = {k for y in walk(x['i']) if y.get('k') == 'ref' for k in item.get(y.get('id'), ())}
                    if ks: item[x['id']] = ks
        for x in walk(f['b']):
            a = None
            if x.get('k') == 'asg': a, b = strip(x['a']), x['b']
            elif x.get('k') == 'call' and x.get('oper') == '=' and len(x.get('a', ())) == 2: a, b = strip(x['a'][0]), x['a'][1]
            if a is None or a.get('k') != 'mem': continue
            src = {k for y in walk(b) if y.get('k') == 'ref' for k in item.get(y.get('id'), ())}
            rec = p.records.get(a.get('cls') or '') or {}
            if src and (a['f'] in keys or src & {m['n'] for m in rec.get('f', ())}): cx.ob(a['f'] in src, 'setting', f, "a setting is taken from the entry of its own name", node=x, detail="%s is taken from %s" % (a['f'], sorted(src)))
