"""Obligations, reports, evidence and exit codes shared by all checks."""
import os, sys, json, time, traceback, re, tempfile, shutil
from .prog import program, AnalysisError, walk, calls
from .absint import show
from . import norm, pit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = {}
TECH = {}


def rule(pid, explanation):
    def deco(f):
        RULES.setdefault(pid, []).append((f, explanation))
        return f
    return deco


class Ctx:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.p = program()
        self.obs = []          # (code, where, text)
        self.viol = []
        self.counts = {}
        self.funcs = set()
        self.undecided = []
        self.samples = []

    # -- locations
    def at(self, fn, node=None):
        if isinstance(fn, str): return fn
        l = node.get('l') if isinstance(node, dict) else (node if node else fn.get('l'))
        return "%s:%s (%s)" % (fn.get('file'), l, fn.get('q'))

    def name(self, fn):
        return fn if isinstance(fn, str) else fn.get('q')

    def ob(self, ok, code, fn, msg, node=None, detail=None):
        """one obligation; ok False = violation of this property at this construct"""
        w = self.at(fn, node)
        self.counts[code] = self.counts.get(code, 0) + 1
        if not isinstance(fn, str): self.funcs.add(fn.get('q'))
        self.obs.append((code, w, msg))
        if not ok:
            self.viol.append(dict(code=code, where=w, func=self.name(fn), msg=msg, detail=detail))
        return ok

    def same(self, a, b, code, fn, msg, facts=None, node=None, tries=60):
        """obligation: the two terms are equal under the facts"""
        ok = True
        det = None
        if not norm.equal(a, b):
            w = pit.witness(a, b, facts or {}, tries=tries, seed=self.seed)
            if w is not None:
                ok = False
                det = "found:    %s\nexpected: %s\ndiffer e.g. for %s: %s vs %s" % (show(a), show(b), w[0], w[1], w[2])
                if facts: det += "\nunder: " + '; '.join(('' if v else 'not ') + show(t) for t, v in list(facts.items())[:30] if t[0] != 'val')
            else:
                self.undecided.append((code, self.at(fn, node), show(a)[:200], show(b)[:200]))
        return self.ob(ok, code, fn, msg, node, det)

    def need(self, n, least, what):
        """instance floor: a rule that matches too little is an error of the analysis"""
        self.counts['instances: ' + what] = n
        if n < least:
            raise AnalysisError("%s: only %d instances of %s found, at least %d expected" % (self.pid, n, what, least))

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: out.append(m.groups())
    return out


def run(pid, tier='quick', seed=1):
    t0 = time.time()
    if pid not in RULES:
        print("no rule for", pid); return 2
    cx, failed = None, False
    try:
        cx = Ctx(pid, tier, seed)
        for f, _ in RULES[pid]:
            f(cx)
    except Exception as e:
        # no answer, unless a violation was already established
        print("ANALYSIS-ERROR property=%s %s" % (pid, e if isinstance(e, AnalysisError) else '%s: %s' % (type(e).__name__, e)))
        if not isinstance(e, AnalysisError): traceback.print_exc()
        if cx is None or not cx.viol: return 2
        failed = True
    kf = [(k, w) for p, k, w in known() if p == pid]
    new, old = [], {}
    for v in cx.viol:
        key = v['code'] + '@' + v['func']
        hit = next((w for k, w in kf if k == key), None)
        if hit is not None: old[key] = hit
        else: new.append(v)
    if failed and not new: return 2
    for key, w in old.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    edir = os.path.join(VERIF, 'evidence') if not os.environ.get('SA_NOEVIDENCE') else tempfile.mkdtemp()
    os.makedirs(edir, exist_ok=True)
    seen, samples = set(), []
    for c, w, m in cx.obs:
        if c not in seen:
            seen.add(c); samples.append("%s  %s  %s" % (c, w, m))
    ev = dict(property=pid, tier=tier, seed=seed, level='other',
              coverage=dict(explanation=' '.join(x for _, x in RULES[pid]), obligations=len(cx.obs), discharged=len(cx.obs) - len(cx.viol),
                            by_rule=cx.counts, functions=sorted(cx.funcs), functions_in_program=len(cx.p.funcs),
                            samples=(samples + cx.samples)[:40], written_differently=[' | '.join(u) for u in cx.undecided[:10]]),
              assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(edir, pid + '.json'), 'w'), indent=1)
    if new:
        rp = os.path.join(edir, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write("%s: rule %s: %s\n" % (v['where'], v['code'], v['msg']))
                if v['detail']: f.write('    ' + str(v['detail']).replace('\n', '\n    ') + '\n')
        for v in new[:8]:
            print("  %s: rule %s: %s" % (v['where'], v['code'], v['msg']))
            if v['detail']: print('      ' + str(v['detail']).replace('\n', '\n      ')[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d wall=%.1fs" % (pid, len(cx.obs), len(cx.funcs), time.time() - t0))
    return 0


ASSUME = ["clang 18's resolution of the sources under the build's flags", "floating point terms are compared as real-number expressions",
          "library calls behave as documented; logging calls have no effect on the result"]
