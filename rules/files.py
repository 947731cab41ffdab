"""P10, P11, P20: protocol of the source and the target file on every path of the two process functions and the two programs."""
from ._lib import *
from .welder import STREAM
from sa import effects

KINDS = dict(src='the source', tgt='the target', temp='the temporary file', other='another file')


def strip(t):
    """the string behind c_str() / data()"""
    while t is not None and t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('c_str', 'data') and t[2]: t = t[2][0]
    return t


class M:
    """monitor record: immutable, fields as attributes"""
    F = ('same', 'inp', 'out', 'outk', 'eof', 'line', 'pend', 'cancel', 'stop', 'closed', 'wfail', 'bad', 'rm', 'mv', 'rmt', 'proc', 'tmp')

    def __init__(self, **k): self.d = {f: k.get(f) for f in self.F}
    def __getattr__(self, f): return self.d[f]
    def but(self, **k): return M(**dict(self.d, **k))
    def key(self): return tuple(self.d[f] for f in self.F)
    def __eq__(self, o): return isinstance(o, M) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self): return ' '.join('%s=%s' % (f, v) for f, v in self.d.items() if v is not None)


M.__getattr__ = lambda self, f: self.__dict__['d'][f] if f in M.F else (_ for _ in ()).throw(AttributeError(f))


RESOLVE = ('realpath', '_fullpath', 'canonicalize_file_name', 'equivalent', 'canonical', 'weakly_canonical', 'GetFullPathNameA', 'GetFinalPathNameByHandleA')
STATS = ('stat', 'stat64')


def syscalls(f):
    return {(c.get('f') or '').rsplit('::', 1)[-1] for c in calls(f)}


def identity_funcs(p):
    """the functions of two paths that ask the system whether both are one file"""
    if not hasattr(p, '_identity'):
        p._identity = {}
        for f in p.funcs.values():
            if f.get('ret') != 'bool' or len(f['p']) != 2 or any('string' not in x['ty'] and 'char' not in x['ty'] for x in f['p']) or '~' in f['q']: continue
            n = set().union(*[syscalls(p.funcs[i]) for i in effects.reach(p, (f['q'],))], syscalls(f))
            if n & (set(STATS) | set(RESOLVE) | {'lstat', 'fstat'}): p._identity[f['q']] = f
    return p._identity


def asks_itself(p, fn):
    """the function compares the files without such a function: not followed"""
    return bool(syscalls(fn) & (set(STATS) | set(RESOLVE)))


def samefile(S, T): return ('call', 'samefile', (S, T))


def same_file(s, S, T):
    """True: both paths are known to lead to one file, False: to different files, None: not known"""
    if S == T or s.holds(eq(S, T)): return True
    h = s.holds(samefile(S, T))
    return h if h is not None else s.holds(samefile(T, S))


def ask_same(s, a, b):
    """what a call of an identity function can answer"""
    a, b = strip(a), strip(b)
    h = same_file(s, a, b)
    if h is not None: return [(s, C(int(h)))]
    t = s.copy()
    t.facts[samefile(a, b)] = True
    s.facts[samefile(a, b)] = False
    s.assume(eq(a, b), False)
    return [(t, C(1)), (s, C(0))]


def identity(cx):
    """an identity function says yes exactly when the paths are equal or lead to the same file"""
    p = cx.p
    for q, f in identity_funcs(p).items():
        def oc(E, s, ci):
            if ci.name in STATS and len(ci.args) == 2:
                P = strip(ci.args[0])
                lv = ci.lvs[1] if ci.lvs[1] is not None else ci.args[1]
                t = s.copy()
                r = lv if isinstance(lv, LV) else LV(lv[1], lv[2]) if lv[0] == 'addr' else None
                if r is None: return None
                s.env[('ghost', 'stat', P)], t.env[('ghost', 'stat', P)] = C(0), C(1)
                t.store(r.root, r.path, ('init', ('stat', P)))
                return [(s, C(-1)), (t, C(0))]
            return None
        key = lambda s: tuple(s.env.get(('ghost', 'stat', x)) for x in A)
        A = [strip(('init', ('param', '#%d' % i))) if prm['ty'].endswith('&') else arg(i) for i, prm in enumerate(f['p'])]
        E = Engine(p, skip=logskip(p), on_call=oc, key=key)
        args = {prm['n']: (arg(i) if not prm['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, prm in enumerate(f['p'])}
        cx.funcs.add(q)
        other = set().union(*[syscalls(p.funcs[i]) for i in effects.reach(p, (q,))], syscalls(f))
        for k, s, v in E.run(f, State(mon=None), args=args):
            if k != 'R' or contradictory(s): continue
            y = retval(s, v)
            if other & set(RESOLVE): cx.undecided.append((q, 'same file', 'resolves the paths')); break
            for want in (True, False):
                u = s.copy()
                if not u.assume(truth(y, 'bool'), want) or contradictory(u): continue
                if u.holds(eq(A[0], A[1])) or u.holds(eq(A[1], A[0])):
                    cx.ob(want, 'identity', f, 'equal paths are the same file')
                    continue
                st = [{C(0): False, C(1): True}.get(u.env.get(('ghost', 'stat', x))) for x in A]
                F = lambda m: eq(fld(('init', ('stat', A[0])), m), fld(('init', ('stat', A[1])), m))
                if want: cx.ob(st == [True, True] and entails(u, AND(F('st_dev'), F('st_ino'))), 'identity', f, 'different paths are the same file only if device and inode of both agree', detail='stat answers %s' % st)
                else: cx.ob(False in st or st == [True, True] and entails(u, NOT(AND(F('st_dev'), F('st_ino')))), 'identity', f, 'different paths are not the same file only if one has no file, or device or inode differ', detail='stat answers %s' % st)


class FileWalk:
    def __init__(self, cx, fn, src, tgt, lines=(), flush=(), progress=(), proc=(), opaque=(), pure=(), quiet=()):
        self.quiet = set(quiet)
        self.cx, self.fn, self.obs, self.seen = cx, fn, {}, set()
        self.src, self.tgt = src, tgt
        self.lines, self.flush, self.progress, self.proc = set(lines), set(flush), set(progress), set(proc)
        self.E = Engine(cx.p, opaque=set(opaque) | self.quiet | self.lines | self.flush | self.progress | self.proc | {'utilities::get_temp_file_path_for_file'} | set(identity_funcs(cx.p)), pure=pure, skip=logskip(cx.p),
                        on_call=self.call, key=self.key)
        cx.funcs.add(fn['q'])

    def run(self, args=None):
        st = State(mon=M())
        self.S0, self.T0 = self.src(st), self.tgt(st)
        if args is None:
            args = {prm['n']: (arg(i) if not prm['ty'].endswith('&') else LV(('param', '#%d' % i), ())) for i, prm in enumerate(self.fn['p'])}
        self.outs = self.E.run(self.fn, st, args=args)
        for q in self.E.stats['functions']: self.seen.add(q)
        return self.outs

    def same(self, s): return same_file(s, self.S0, self.T0)
    def key(self, s): return (self.same(s), s.holds(eq(self.S0, self.T0)), s.env.get(('ghost', 'opened')))

    def note(self, ok, code, msg, node, det=None):
        k = (code, node.get('l') if node else 0, msg)
        cur = self.obs.get(k)
        if cur is None or (cur[0] and not ok): self.obs[k] = (bool(ok), node, det)

    def emit(self, codes):
        for (code, l, msg), (ok, node, det) in self.obs.items():
            if code in codes: self.cx.ob(ok, code, self.fn, msg, node, det)

    def kind(self, s, t):
        t = strip(t)
        if t is None: return 'other'
        if t[0] == 'temp': return 'temp'
        if t[0] == 'ite':
            a, b = self.kind(s, t[2]), self.kind(s, t[3])
            h = s.holds(t[1])
            if h is not None: return a if h else b
            return a if a == b else 'src' if 'src' in (a, b) else 'other'
        if t == self.S0: return 'src'
        if t == self.T0: return 'src' if self.same(s) else 'tgt'
        return 'other'

    # ------------------------------------------------------------- events
    def call(self, E, s, ci):
        q, nm, n, m = ci.q, ci.name, ci.node, s.mon
        th = ci.this
        if q in self.quiet: return [(s, ('call', q, (C(E.nid(n)),)))]
        if q in identity_funcs(self.cx.p): return ask_same(s, ci.args[0], ci.args[1])
        cls = q.rsplit('::', 1)[0] if '::' in q else ''
        ops = s.env.get(('ghost', 'opened')) or ()
        role = None
        if isinstance(th, LV): role = dict(ops).get((th.root, th.path))
        if q == 'utilities::get_temp_file_path_for_file':
            self.seen.add('temp')
            of = self.kind(s, ci.args[0])
            self.note(of == 'src', 'temp-of-source', 'the temporary file is placed beside the source', n, show(ci.args[0]))
            t = s.copy()
            lv = ci.lvs[1]
            if isinstance(lv, LV): t.store(lv.root, lv.path, ('temp',))
            t.mon = m.but(tmp=True); s.mon = m.but(tmp=False)
            return [(t, C(1)), (s, C(0))]
        stream = 'ifstream' in q and 'in' or ('ofstream' in q and 'out') or ('fstream' in q and 'out') or None
        if stream and (nm == 'open' or nm.startswith('basic_') and ci.args and len(ci.args) >= 1) and isinstance(th, LV):
            self.seen.add('open-' + stream)
            k = self.kind(s, ci.args[0])
            if stream == 'out':
                self.note(k != 'src', 'source-not-written', 'the source is never opened for writing', n, 'path: %s' % show(strip(ci.args[0])))
                self.note(k != 'tgt' or self.same(s) is False, 'target-not-source', 'the target is opened for writing only after it is known not to be the source', n)
                md = ci.args[1] if len(ci.args) > 1 else None
                out = []
                for ok in (True, False):
                    t = s.copy(); t.mon = m.but(out=ok, outk=k, closed=False, wfail=None)
                    t.env[('ghost', 'opened')] = tuple(sorted(set(ops) | {((th.root, th.path), 'out')}, key=repr))
                    out.append((t, C(0)))
                return out
            self.note(k == 'src', 'source-read', 'the input is the source', n, show(strip(ci.args[0])))
            out = []
            for ok in (True, False):
                t = s.copy(); t.mon = m.but(inp=ok)
                t.env[('ghost', 'opened')] = tuple(sorted(set(ops) | {((th.root, th.path), 'in')}, key=repr))
                out.append((t, C(0)))
            return out
        if role and nm == 'is_open': return [(s, C(1 if (m.inp if role == 'in' else m.out) else 0))]
        if role == 'out':
            if nm == 'close':
                self.seen.add('close')
                self.note(not m.pend, 'flushed-before-close', 'what is held back is written before the target is closed', n)
                s.mon = m.but(closed=True); return [(s, C(0))]
            if nm in ('fail', 'bad', 'good', 'operator!', 'operator bool'):
                self.seen.add('wcheck')
                out = []
                if not m.out:
                    vals = (True,)
                elif m.closed and m.wfail in (True, False): vals = (m.wfail,)
                else: vals = (True, False)
                for f in vals:
                    t = s.copy(); t.mon = m.but(wfail=f if m.closed or not m.out else m.wfail if m.wfail else ('early-fail' if f else None))
                    out.append((t, C(int(f if nm in ('fail', 'bad', 'operator!') else not f))))
                return out
        if role == 'in':
            if nm == 'bad':
                self.seen.add('rcheck')
                out = []
                for f in ((m.bad,) if m.bad is not None else (True, False)):
                    t = s.copy(); t.mon = m.but(bad=f); out.append((t, C(int(f))))
                return out
            if nm == 'eof':
                self.seen.add('rcheck')
                out = []
                for f in ((not m.bad,) if m.bad is not None else (True, False)):
                    t = s.copy(); t.mon = m.but(bad=not f); out.append((t, C(int(f))))
                return out
            if nm in ('fail', 'operator!', 'operator bool', 'good') and not m.inp:
                return [(s, C(int(nm in ('fail', 'operator!'))))]
            if nm in ('fail', 'operator!', 'operator bool', 'good') and m.line is None and not m.eof:
                return [(s, C(int(nm not in ('fail', 'operator!'))))]
        if q == 'std::getline':
            self.seen.add('read')
            r = isinstance(ci.lvs[0], LV) and dict(ops).get((ci.lvs[0].root, ci.lvs[0].path))
            self.note(r == 'in', 'reads-source', 'lines are read from the source', n)
            self.note(not m.cancel, 'no-read-after-cancel', 'no further line is read after processing was cancelled', n)
            self.note(m.inp is not False, 'read-open', 'lines are read only from an opened source', n)
            t = s.copy()
            s.env[STREAM], t.env[STREAM] = C(0), C(1)
            lv = ci.lvs[1]
            if isinstance(lv, LV):
                x = ('line', s.load(lv.root, lv.path)) if False else ('line',)
                t.store(lv.root, lv.path, x)
            s.mon = m.but(eof=True)
            t.mon = m.but(line=True)
            return [(t, LV(STREAM, ())), (s, LV(STREAM, ()))]
        if isinstance(th, LV) and th.root == STREAM:
            if nm in ('operator bool', 'good'): return [(s, s.env[STREAM])]
            if nm in ('operator!', 'fail', 'eof'): return [(s, mk_not(s.env[STREAM]))]
        if q in self.progress:
            self.seen.add('progress')
            t = s.copy()
            if m.eof or m.cancel:      # the answer to the final report changes nothing
                return [(s, C(0)), (t, C(1))]
            s.mon = m.but(cancel=True)
            return [(t, C(1)), (s, C(0))]
        if q in self.lines:
            self.seen.add('line')
            if len(ci.args) > 1 and ci.args[1] == C(1): pass
            else: self.note(not m.cancel, 'no-line-after-cancel', 'no further line is processed after processing was cancelled', n)
            self.note(not m.closed, 'not-written-after-close', 'nothing is written after the target was closed', n)
            s.mon = m.but(pend=True)
            for f in ('waiting_for_arc_', 'current_arc_', 'unwritten_commands_'):
                if isinstance(th, LV): s.store(th.root, th.path + (f,), ('mut', q, ('any',), (C(E.nid(n)),)))
            return [(s, C(0))]
        if q in self.flush:
            self.seen.add('flush')
            self.note(not m.closed, 'not-written-after-close', 'nothing is written after the target was closed', n)
            s.mon = m.but(pend=False); return [(s, C(0))]
        if nm == 'operator<<' and ci.lvs and isinstance(ci.lvs[0], LV) and dict(ops).get((ci.lvs[0].root, ci.lvs[0].path)) == 'out':
            self.note(not m.closed, 'not-written-after-close', 'nothing is written after the target was closed', n)
        if q in ('remove', 'std::remove', 'unlink', 'std::rename', 'rename') and ci.args and len(ci.args) <= 2 and isinstance(ci.args[0], tuple):
            return self.mutate(E, s, ci)
        if q in self.proc:
            self.seen.add('proc')
            out = []
            for f in (True, False):
                t = s.copy(); t.mon = m.but(proc=f)
                out.append((t, self.procval(f)))
            return out
        return None

    def procval(self, f): return C(int(f))

    def complete(self, s, m):
        """why the source must not be replaced yet (empty when it may)"""
        w = []
        if self.same(s) is not True: w.append('source and target need not be the same')
        if self.proc:
            if not m.proc: w.append('processing did not succeed')
            return w
        if not m.inp: w.append('the source may not have been opened')
        if not m.out: w.append('the target may not have been opened')
        if m.outk != 'temp': w.append('the result was not written to a temporary file')
        if not m.eof: w.append('the source was not read to its end')
        if m.cancel: w.append('processing was cancelled')
        if m.pend: w.append('lines are held back')
        if not m.closed: w.append('the result is not closed')
        if m.wfail is not False: w.append('the result was not found written without error')
        if m.bad is not False: w.append('the source was not found read without error')
        return w

    def mutate(self, E, s, ci):
        m, n = s.mon, ci.node
        ren = ci.q.endswith('rename')
        k = self.kind(s, ci.args[0])
        k2 = self.kind(s, ci.args[1]) if ren and len(ci.args) > 1 else None
        w = self.complete(s, m)
        ok_, bad_ = s.copy(), s.copy()
        if not ren:
            self.seen.add('remove')
            if k == 'src':
                self.note(not w, 'source-removed', 'the source is removed only when source and target are the same and the complete result was written, closed and found error-free', n, '; '.join(w))
                ok_.mon, bad_.mon = m.but(rm=True), m.but(rm=False)
            elif k == 'temp':
                self.note(not (m.rm and m.mv is not True), 'result-kept', 'the temporary file is not removed once the source is gone', n)
                ok_.mon = bad_.mon = m.but(rmt=True)
            elif k == 'tgt':
                self.note(not m.out or m.wfail is True or m.bad or m.cancel or (self.proc and m.proc is False), 'result-kept', 'the result is not removed', n)
        else:
            self.seen.add('rename')
            if k2 == 'src':
                self.note(not w, 'source-replaced', 'the source is replaced only when source and target are the same and the complete result was written, closed and found error-free', n, '; '.join(w))
                self.note(k == 'temp', 'replaced-by-result', 'the result takes the name of the source', n, show(strip(ci.args[0])))
                ok_.mon, bad_.mon = m.but(mv=True), m.but(mv=False)
            elif k == 'src':
                self.note(False if w else True, 'source-moved', 'the source is moved away only when the complete result was written, closed and found error-free', n, '; '.join(w))
                ok_.mon, bad_.mon = m.but(rm=True), m.but(rm=False)
        return [(ok_, C(0)), (bad_, C(-1))]

    def replaced(self, m): return m.mv is True


FILEOPS = ('remove', 'rename', 'unlink', 'fopen', 'freopen', 'truncate', 'creat', 'tmpfile', 'system', 'rmdir', 'std::remove', 'std::rename', 'std::freopen', 'std::fopen', 'std::system', '_wfopen', 'mkstemp')


def fileop(c):
    q = c.get('f') or ''
    if q in FILEOPS and not (q.endswith('remove') and len(c.get('a', ())) > 1): return True
    b = q.rsplit('::', 1)
    return len(b) == 2 and ('ofstream' in b[0] or 'basic_fstream' in b[0] or 'filebuf' in b[0]) and b[1] in ('open', 'basic_ofstream', 'basic_fstream') and bool(c.get('a'))


def other_ops(cx, fw, roots, what):
    """functions below the protocol that were not walked touch no file"""
    p = cx.p
    walked = fw.E.stats['functions']
    n = 0
    for i in effects.reach(p, roots, stop=('utilities::get_temp_file_path_for_file',)):
        f = p.funcs[i]
        if i in walked or f['q'] in roots: continue
        n += 1
        for c in calls(f):
            if fileop(c): cx.ob(False, 'no-other-file', f, 'no file is written, removed or renamed while lines are processed', c, c.get('f'))
        cx.ob(True, 'no-other-file', f, 'no file is written, removed or renamed while lines are processed')
    cx.need(n, 3, what)


AW_LINES = ('arc_welder::process_gcode',)
AW_WRITE = ('arc_welder::write_unwritten_gcodes_to_file',)


def aw_walk(cx):
    fn = cx.p.find('arc_welder::process')
    R = ('this', 'arc_welder')
    src = lambda s: s.load(R, ('source_path_',))
    tgt = lambda s: s.load(R, ('target_path_',))
    fw = FileWalk(cx, fn, src, tgt, lines=AW_LINES, flush=AW_WRITE, progress=('arc_welder::on_progress_',),
                  quiet=QUIET)
    fw.run()
    return fw


QUIET = ('arc_welder::write_gcode_to_file', 'arc_welder::add_arcwelder_comment_to_target', 'gcode_parser::try_parse_gcode', 'arc_welder::get_progress_', 'arc_welder::get_file_size', 'arc_welder::get_next_update_time')
P10CODES = {'temp-of-source', 'source-read', 'source-not-written', 'target-not-source', 'source-removed', 'source-replaced', 'source-moved', 'replaced-by-result', 'result-kept'}
P11CODES = {'reads-source', 'no-read-after-cancel', 'no-line-after-cancel', 'read-open', 'not-written-after-close', 'flushed-before-close'}


def paths_kept(cx, members, roots):
    for i in effects.reach(cx.p, roots):
        f = cx.p.funcs[i]
        for m, n in effects.direct(f):
            if m in members: cx.ob(False, 'path-kept', f, 'the paths are not changed while lines are processed', n)
    cx.ob(True, 'path-kept', 'whole program', 'the paths are not changed while lines are processed')


DOMF = DOM + "States are partitioned by a typestate monitor of the source and target files; every stream, remove and rename outcome, every progress answer and the end of the input are forked. "


@rule('P10', DOMF + "At each open for writing, remove and rename the path argument is resolved to source, target or temporary file and the preconditions (same path, complete, closed, error free, not cancelled) must hold in every state that reaches it; on every return the result is under the source's name exactly when the source was removed, or failure is reported. Functions called per line must not touch files (call graph closure).")
def p10(cx):
    fw = aw_walk(cx)
    if asks_itself(cx.p, fw.fn):
        cx.undecided.append(('same file', fw.fn['q'], 'compares the files without a function of its own'))
        return
    fw.emit(P10CODES)
    identity(cx)
    fn = fw.fn
    n = 0
    for k, s, v in fw.outs:
        if contradictory(s): continue
        n += 1
        m = s.mon
        suc = fld(retval(s, v), 'success')
        if m.rm is True and m.mv is not True:
            cx.ob(suc == C(0) or entails(s, NOT(truth(suc, 'bool'))), 'replaced-or-reported', fn, 'after the source was removed the result takes its name, or failure is reported', detail=str(m))
        if m.rm is True: cx.ob(not m.rmt or m.mv, 'result-kept', fn, 'the result is kept once the source was removed', detail=str(m))
        if suc == C(1) and fw.same(s):
            cx.ob(m.mv is True, 'overwritten', fn, 'overwriting the source succeeds only with the result under its name', detail=str(m))
        if suc == C(1) and not fw.same(s):
            cx.ob(m.outk == 'tgt', 'target-written', fn, 'the result is written to the target path', detail=str(m))
    cx.need(n, 6, 'returns of process')
    cx.need(len(fw.seen & {'open-in', 'open-out', 'read', 'line'}), 4, 'file events of process')
    other_ops(cx, fw, ('arc_welder::process',), 'functions below process')
    paths_kept(cx, ('arc_welder::source_path_', 'arc_welder::target_path_'), QUIET + AW_LINES + AW_WRITE + ('arc_welder::on_progress_',))


def nonempty(t):
    if t is None: return False
    if is_c(t): return isinstance(t[1], str) and len(t[1]) > 0
    if t[0] == 'ite': return nonempty(t[2]) and nonempty(t[3])
    if t[0] in ('op', 'call', 'cat'): return any(nonempty(x) for x in (t[2:] if t[0] == 'op' else t[2] if t[0] == 'call' else t[1:]) if isinstance(x, tuple))
    return False


@rule('P11', DOMF + "On every return the result must be: success only with both files opened, the input read to its end, nothing held back, the target closed and found error-free and no cancellation; failure (unless cancelled) with a non-empty message; cancelled exactly when the callback asked to stop, after which no line is read or processed but the queue is flushed before closing. The callback's answer is what the progress function returns, and the program's exit status depends on success.")
def p11(cx):
    fw = aw_walk(cx)
    fw.emit(P11CODES)
    fn = fw.fn
    n = 0
    for k, s, v in fw.outs:
        if contradictory(s): continue
        n += 1
        m, r = s.mon, retval(s, v)
        suc, can, msg = fld(r, 'success'), fld(r, 'cancelled'), fld(r, 'message')
        why = [t for c, t in ((not m.inp, 'the source was not opened'), (not m.out, 'the target was not opened'), (not m.eof, 'the input was not read to its end'), (m.cancel, 'processing was cancelled'), (m.pend, 'lines are held back'),
                              (not m.closed, 'the target is not closed'), (m.wfail is not False, 'the target was not found written without error'), (m.bad is not False, 'the source was not found read without error'),
                              (m.rm is False or m.mv is False, 'the source could not be replaced')) if c]
        neg_ = suc == C(0) or entails(s, NOT(truth(suc, 'bool')))
        if why: cx.ob(neg_, 'success-honest', fn, 'success is reported only if everything was read, written and closed without error', detail='%s; %s; success = %s' % ('; '.join(why), m, show(suc)))
        if neg_ and not m.cancel:
            cx.ob(nonempty(msg), 'failure-message', fn, 'a failure is reported with a message', detail='%s; message = %s' % (m, show(msg)))
        c1 = can == C(1) or entails(s, truth(can, 'bool'))
        c0 = can == C(0) or entails(s, NOT(truth(can, 'bool')))
        cx.ob(c1 if m.cancel else c0, 'cancelled-honest', fn, 'the result says cancelled exactly when the callback asked to stop', detail='%s; cancelled = %s' % (m, show(can)))
        if m.out and m.closed is not None: cx.ob(m.closed and m.pend is not True, 'pending-written', fn, 'what is pending is written and the target closed on every way out', detail=str(m))
    cx.need(n, 6, 'returns of process')
    cx.need(len(fw.seen & {'open-in', 'open-out', 'read', 'progress', 'line', 'flush'}), 6, 'file events of process')
    progress_answer(cx)
    exit_status(cx)


def progress_answer(cx):
    p = cx.p
    fn = p.find('arc_welder::on_progress_')
    got = [0]

    def oc(E, s, ci):
        ptr = ci.node.get('f') is None or ci.q.endswith('progress_callback_')
        if ptr and 'progress_callback_' in str(ci.node.get('fn') or ci.node.get('ce') or ci.node)[:4000] and not ci.q.startswith('logger'):
            got[0] += 1
            t = s.copy(); s.mon, t.mon = 0, 1
            return [(s, C(0)), (t, C(1))]
        return None
    E = Engine(p, skip=logskip(p), on_call=oc)
    for k, s, v in E.run(fn, State(mon=None), args={fn['p'][0]['n']: LV(('param', '#0'), ())}):
        v = retval(s, v)
        if s.mon is not None: cx.ob(v == C(s.mon), 'callback-answer', fn, "the callback's answer is returned", detail=show(v))
        else: cx.ob(v == C(1), 'no-callback', fn, 'without a callback processing goes on', detail=show(v))
    cx.need(got[0], 1, 'calls of the progress callback')


def prog_main(cx, callee, pred=lambda f: True):
    """the program function that calls callee"""
    p = cx.p
    out = [f for f in p.funcs.values() if any(c.get('f') == callee for c in calls(f)) and pred(f)]
    if not out: raise AnalysisError('no caller of %s found' % callee)
    return out


def main_of(cx, file_part):
    fs = [f for f in cx.p.funcs.values() if f['q'] == 'main' and file_part in f['file']]
    if len(fs) != 1: raise AnalysisError('main of %s not found' % file_part)
    return fs[0]


def nonzero(s, v):
    if v is None: return False
    if is_c(v): return bool(v[1])
    return bool(entails(s, NOT(eq(v, C(0)))))


def exit_status(cx):
    p = cx.p
    fn = main_of(cx, 'ArcWelderConsole')
    hit = [0]

    def oc(E, s, ci):
        if ci.q == 'arc_welder::process':
            hit[0] += 1
            out = []
            for b in (1, 0):
                u = s.copy(); u.mon = b
                out.append((u, setp(('init', ('results', b)), ('success',), C(b))))
            return out
    E = Engine(p, opaque={'arc_welder::process'}, skip=logskip(p), on_call=oc, inline_if=inlines('arc_welder::process', p))
    n = 0
    for k, s, v in E.run(fn, State()):
        if k != 'R' or contradictory(s) or s.mon is None: continue
        n += 1
        v = retval(s, v)
        if s.mon == 0: cx.ob(nonzero(s, v), 'exit-status', fn, 'the program exits with a non-zero status when processing failed', detail=show(v))
        else: cx.ob(v is None or v == C(0) or not nonzero(s, v), 'exit-status-ok', fn, 'the program exits with zero when processing succeeded', detail=show(v))
    cx.need(n, 2, 'outcomes of the program')


def inlines(callee, p):
    """inline only the functions that lead to callee"""
    def lead(f, memo={}):
        i = f['q']
        if i in memo: return memo[i]
        memo[i] = False
        r = any(c.get('f') == callee or any(lead(g) for g in p.by_q.get(c.get('f'), ())) for c in calls(f))
        memo[i] = r
        return r
    return lead


def ai_walk(cx):
    fn = cx.p.find('arc_interpolation::process')
    R = ('this', 'arc_interpolation')
    fw = FileWalk(cx, fn, lambda s: s.load(R, ('args_', 'source_path')), lambda s: s.load(R, ('args_', 'target_path')), quiet=AIQUIET)
    fw.strict = False
    fw.run()
    return fw


AIQUIET = ('gcode_parser::try_parse_gcode', 'gcode_position::update', 'firmware::interpolate_arc', 'firmware::get_gcode_header_comment', 'firmware::set_current_position', 'firmware::set_current_state', 'firmware::get_num_arc_segments_generated',
           'parsed_command::clear', 'position::get_current_extruder')


P20CODES = {'source-read', 'source-not-written', 'reads-source', 'read-open', 'not-written-after-close'}


@rule('P20', DOMF + "In arc_interpolation::process success is returned only with both files opened, the input read to its end without error and the output closed and found error-free. In the program the file handed to process is the temporary file or known to differ from the source; remove and rename of the source are reached only after process succeeded on the temporary file, and the exit status is zero only if the result is in place.")
def p20(cx):
    fw = ai_walk(cx)
    fw.emit(P20CODES)
    fn = fw.fn
    n = 0
    for k, s, v in fw.outs:
        if contradictory(s): continue
        n += 1
        m, v = s.mon, retval(s, v)
        why = [t for c, t in ((not m.inp, 'the source was not opened'), (not m.out, 'the target was not opened'), (not m.eof, 'the input was not read to its end'), (not m.closed, 'the target is not closed'),
                              (m.wfail is not False, 'the target was not found written without error'), (m.bad is not False, 'the source was not found read without error')) if c]
        if why: cx.ob(v == C(0) or entails(s, NOT(truth(v, 'bool'))), 'success-honest', fn, 'success is returned only if everything was read, written and closed without error', detail='%s; %s; returns %s' % ('; '.join(why), m, show(v)))
    cx.need(n, 4, 'returns of process')
    cx.need(len(fw.seen & {'open-in', 'open-out', 'read'}), 3, 'file events of process')
    other_ops(cx, fw, ('arc_interpolation::process',), 'functions below process')
    identity(cx)
    if asks_itself(cx.p, main_of(cx, 'Inverse')): cx.undecided.append(('same file', 'main', 'compares the files without a function of its own'))
    else: straightener_program(cx)


def straightener_program(cx):
    p = cx.p
    fn = main_of(cx, 'Inverse')
    PROC = 'arc_interpolation::process'
    lead = inlines(PROC, p)
    obs, seen = {}, set()
    SRC, RES = ('ghost', 'src'), ('ghost', 'res')

    def note(ok, code, msg, node, det=None):
        k = (code, node.get('l') if node else 0, msg)
        if k not in obs or (obs[k][0] and not ok): obs[k] = (bool(ok), node, det)

    def oc(E, s, ci):
        q, m, n = ci.q, s.mon, ci.node
        if q == 'utilities::get_temp_file_path_for_file':
            t = s.copy(); lv = ci.lvs[1]
            if isinstance(lv, LV): t.store(lv.root, lv.path, ('temp', ci.args[0]))
            return [(t, C(1)), (s, C(0))]
        if q in identity_funcs(p): return ask_same(s, ci.args[0], ci.args[1])
        if q == PROC:
            seen.add('process')
            S = strip(s.load(ci.this.root, ci.this.path + ('args_', 'source_path')))
            T = strip(s.load(ci.this.root, ci.this.path + ('args_', 'target_path')))
            note(m.proc is None, 'processed-once', 'the file is processed once', n)
            note(m.rm is None and m.mv is None, 'source-kept', 'the source is neither removed nor renamed before it is processed', n)
            tmp = T == ('temp', S)
            note(tmp or same_file(s, S, T) is False, 'target-not-source', 'the output is opened on a temporary file, or on a target known not to be the source', n, '%s / %s' % (show(S), show(T)))
            s.env[SRC], s.env[RES] = S, T
            out = []
            for f in (True, False):
                t = s.copy(); t.mon = m.but(proc=f, tmp=tmp); out.append((t, C(int(f))))
            return out
        if q in ('remove', 'std::remove', 'rename', 'std::rename', 'unlink') and len(ci.args) <= 2 and not (q.endswith('remove') and len(ci.args) > 1):
            S, T = s.env.get(SRC), s.env.get(RES)
            a = [strip(x) for x in ci.args]
            ren = q.endswith('rename')
            on = a[1] if ren else a[0]
            ok_, bad_ = s.copy(), s.copy()
            if S is None:
                note(on[0] == 'temp', 'source-kept', 'no file is removed or renamed before the source is processed', n, show(on))
                return [(ok_, C(0)), (bad_, C(-1))]
            if on == S or (ren and a[0] == S):
                seen.add('replace')
                note(m.proc is True and m.tmp, 'source-replaced', 'the source is removed or replaced only after the complete result was written to the temporary file', n, str(m))
                if ren and on == S:
                    note(a[0] == T, 'replaced-by-result', 'the result takes the name of the source', n, show(a[0]))
                    ok_.mon, bad_.mon = m.but(mv=True), m.but(mv=False)
                else: ok_.mon, bad_.mon = m.but(rm=True), m.but(rm=False)
            elif on == T and not ren:
                note(not (m.rm and m.mv is not True), 'result-kept', 'the result is not removed once the source is gone', n)
                note(m.tmp or m.proc is False, 'result-kept', 'the result is not removed', n)
                ok_.mon = bad_.mon = m.but(rmt=True)
            return [(ok_, C(0)), (bad_, C(-1))]
        return None
    E = Engine(p, opaque={PROC, 'utilities::get_temp_file_path_for_file'} | set(identity_funcs(p)), skip=logskip(p), on_call=oc,
               inline_if=lambda f: lead(f) or f.get('cls') in ('arc_interpolation', 'arc_interpolation_args'))
    outs = E.run(fn, State(mon=M()))
    for (code, l, msg), (ok, node, det) in obs.items(): cx.ob(ok, code, fn, msg, node, det)
    n = 0
    for k, s, v in outs:
        if k != 'R' or s.mon.proc is None or contradictory(s): continue
        n += 1
        m, v = s.mon, retval(s, v)
        good = m.proc and (not m.tmp or m.mv is True)
        if not good: cx.ob(nonzero(s, v), 'exit-status', fn, 'the program exits with a non-zero status unless the result is complete and in place', detail='%s: returns %s' % (m, show(v)))
        else: cx.ob(not nonzero(s, v), 'exit-status-ok', fn, 'the program exits with zero when the result is complete and in place', detail=show(v))
        if m.rm: cx.ob(m.mv is True or nonzero(s, v), 'replaced-or-reported', fn, 'after the source was removed the result takes its name, or failure is reported', detail=str(m))
    cx.need(n, 3, 'outcomes of the program')
    cx.need(len(seen), 2, 'file events of the program')
    cx.funcs.add(fn['q'])
