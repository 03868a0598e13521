#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property on /repo's current tree.

Exit 0: held on everything analysed.  Exit 1 + VIOLATION line: broken (or no longer establishable)."""
import json, os, sys, time, traceback, threading
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)

class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = []; self.counts = {}; self.samples = []; self.notes = []; self.assumptions = []; self.rules = []
        self.obl = 0; self.dis = 0
    def rule(self, text): self.rules.append(text)
    def count(self, what, n=1): self.counts[what] = self.counts.get(what, 0) + n
    def ok(self, what='obligations', n=1, sample=None):
        """an obligation that was decided in the positive"""
        self.obl += n; self.dis += n; self.count(what, n)
        if sample is not None and len(self.samples) < 12: self.samples.append(sample)
    def violation(self, key, msg):
        """key: stable identity (no line numbers); msg: what is wrong and where"""
        self.obl += 1
        if all(k != key for k, _ in self.viol): self.viol.append((key, msg))
    def check(self, cond, key, msg, what='obligations', sample=None):
        if cond: self.ok(what, 1, sample)
        else: self.violation(key, msg)
        return cond
    def floor(self, what, n):
        if self.counts.get(what, 0) < n:
            self.violation('floor:' + what, 'only %d %s analysed, at least %d expected: an anchor of this check is gone' % (self.counts.get(what, 0), what, n))

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from engine import build
    import checks
    c = Ctx(prop, tier)
    fn = checks.registry()[prop]
    level = checks.level(prop, fn)
    try:
        fn(c)
    except build.BuildError as e:
        if e.stage == 'driver':
            print(e.log[-3000:]); print('check error: cannot build the compiler driver'); return 2
        tail = [l for l in e.log.splitlines() if l.strip()]
        err = [l for l in tail if l.startswith('error') or 'panicked' in l]
        c.violation('build:' + e.stage, 'the %s does not build, nothing can be established: %s' % (
            'code generated for the schema corpus' if e.stage == 'compile' else 'corpus (the generator failed)', ' | '.join((err or tail)[:6])))
    except Exception:
        tb = traceback.format_exc()
        c.violation('analysis-error', 'the analysis could not complete on this source:\n' + tb[-3000:])
    kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    known = {(k['property'], k['key']): k for k in kf['findings']}
    fresh = []
    shown = set()
    for key, msg in c.viol:
        k = known.get((prop, key))
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else: fresh.append((key, msg))
    os.makedirs(os.path.join(ROOT, 'evidence', 'reports'), exist_ok=True)
    wall = time.time() - t0
    cov = {'obligations': c.obl, 'discharged': c.dis,
           'checker_cmd': 'python3 check.py %s' % prop,
           'trusted_base': ['rustc nightly MIR construction and type checking', 'the abstract interpreter in engine/ (transfer functions, library models)',
                            'bitreader 0.3.8 and rust-bitwriter 0.0.1 behave as modelled'],
           'rules': c.rules, 'analysed': c.counts, 'samples': c.samples or ['-'], 'known_findings': len(c.viol) - len(fresh)}
    if level == 'other':
        cov['explanation'] = ' '.join(c.rules)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': c.assumptions,
          'wall_s': round(wall, 2), 'violations': len(fresh)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for r in c.rules: print('rule: ' + r)
    print('analysed: ' + ', '.join('%s=%d' % kv for kv in sorted(c.counts.items())))
    print('%s: %d obligations, %d discharged, %d violations, %d known, %.1fs' % (prop, c.obl, c.dis, len(fresh), len(c.viol) - len(fresh), wall))
    if fresh:
        rp = os.path.join(ROOT, 'evidence', 'reports', prop + '.txt')
        with open(rp, 'w') as f:
            for key, msg in fresh: f.write('[%s]\n%s\n\n' % (key, msg))
        for key, msg in fresh[:40]: print('  [%s] %s' % (key, msg[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0

if __name__ == '__main__':
    rc = [2]
    def go(): rc[0] = main()
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush()
    os._exit(rc[0])
