"""Evidence, violations, known findings and replay artefacts."""
import hashlib
import json
import os
import sys
import time as _time

_real_time = _time.time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
    """key -> text for the 'known:' lines; 'fixed:' lines suppress nothing."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                f = line[len('known:'):].strip().split(None, 2)
                pid = f[0].split('=', 1)[1]
                key = f[1].split('=', 1)[1]
                out[(pid, key)] = f[2] if len(f) > 2 else ''
    return out


class Report(object):
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = _real_time()
        self.violations = {}
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.scenarios = []

    def elapsed(self):
        return _real_time() - self.t0

    def violation(self, key, detail, replay):
        """key identifies input / call site / history; one artefact per key."""
        if key not in self.violations and len(self.violations) < 300:
            self.violations[key] = (detail, replay)

    def sample(self, obj, limit=12):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def set(self, **kw):
        self.cov.update(kw)

    def finish(self):
        known = load_known()
        new = 0
        rdir = os.path.join(VERIF, 'replays')
        for key in sorted(self.violations):
            detail, replay = self.violations[key]
            if (self.pid, key) in known:
                print('KNOWN-FINDING: property=%s %s %s' % (
                    self.pid, key, known[(self.pid, key)]))
                continue
            new += 1
            if new > 5:
                continue
            if not os.path.isdir(rdir):
                os.makedirs(rdir)
            h = hashlib.sha1(key.encode('utf-8', 'backslashreplace')).hexdigest()[:10]
            path = os.path.join(rdir, '%s-%s.json' % (self.pid, h))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'key': key, 'detail': detail,
                           'replay': replay}, f, indent=1, default=repr)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  key: %s' % key)
            for line in str(detail).splitlines()[:60]:
                print('  | ' + line)
        cov = dict(self.cov)
        cov.setdefault('samples', self.samples)
        if self.scenarios:
            cov['scenarios'] = self.scenarios
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(self.elapsed(), 3), 'violations': new}
        edir = os.path.join(VERIF, 'evidence')
        if not os.path.isdir(edir):
            os.makedirs(edir)
        with open(os.path.join(edir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write('\n')
        brief = dict((k, v) for k, v in cov.items()
                     if isinstance(v, (int, float, bool)))
        print('%s %s: %s violations=%d wall=%.1fs' % (
            self.pid, self.tier, json.dumps(brief, sort_keys=True), new, self.elapsed()))
        sys.stdout.flush()
        return 1 if new else 0
