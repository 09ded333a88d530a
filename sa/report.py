"""Verdicts, evidence files and known findings."""
import json
import os
import re
import sys
import time
import lib


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obl = 0                 # obligations examined
        self.bad = []                # (key, text)
        self.und = []                # undecided obligations
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assume = []
        self.broken = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def need(self, what, have, want):
        """an anchor or instance count confirmed by hand on the analysed tree"""
        if have < want:
            self.broken.append('%s: found %d, expected at least %d' % (what, have, want))

    def violation(self, key, text):
        self.bad.append((key, text))

    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(s)

    def points(self, results, floor=None):
        """fold in the results of wit.run"""
        nw = 0
        for config, unit, res, errs, dt in results:
            for kind, name, body, text, loc in errs:
                if kind == 'compile':
                    self.violation('compile:' + name, 'expression "%s" [%s] no longer compiles: %s' % (body, config, short(text)))
                else:
                    self.broken.append('%s: %s' % (unit, text))
            for name, n, out, ninst, body in res or []:
                nw += 1
                self.obl += n
                self.count('ir_instructions', ninst)
                if n and nw % 97 == 1:
                    self.sample('%s: %s: %d component identities [%s]' % (name, body, n, config), 10)
                for kind, text, loc in out:
                    t = '%s: "%s" [%s]: %s at %s' % (name, body, config, text, short(loc))
                    if kind == 'bad':
                        self.violation(name, t)
                    elif kind == 'undecided':
                        self.und.append(t)
                    else:
                        self.broken.append(t)
        self.count('witness_functions', nw)
        if floor is not None:
            self.need('witness functions', nw, floor)

    def finish(self):
        pid = self.pid
        known, fixed = findings(pid)
        new = []
        hit = set()
        for key, text in self.bad:
            k = [x for x in known if x[0] == key]
            if k:
                hit.add(k[0])
            else:
                new.append((key, text))
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[1])) if k in hit else None
        cov = dict(self.counts)
        cov.update(obligations=self.obl, undecided=len(self.und), rules=self.rules, samples=self.samples,
                   explanation=' '.join(self.rules) or 'see DESIGN.md')
        ev = {'property': pid, 'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        if self.und:
            cov['undecided_list'] = self.und[:40]
        os.makedirs(os.path.join(lib.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(lib.VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        print('%s: %d obligations, %d undecided, %d new violations, %s, %.1fs' % (
            pid, self.obl, len(self.und), len(new), ', '.join('%s=%d' % x for x in sorted(self.counts.items())), time.time() - self.t0))
        for u in self.und[:10]:
            print('UNDECIDED: ' + u[:600])
        if new:
            rp = os.path.join(lib.VERIF, 'evidence', pid + '.violations.txt')
            with open(rp, 'w') as f:
                for key, text in new:
                    f.write('[%s] %s\n' % (key, text))
            for key, text in new[:12]:
                print('  ' + text[:900])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        if self.broken:
            for b in self.broken[:10]:
                print('ANALYSIS-BROKEN: ' + b[:600])
            return 2
        if self.obl == 0:
            print('ANALYSIS-BROKEN: no obligations')
            return 2
        return 0


def short(loc):
    """strip template arguments and the repository prefix from an inline chain"""
    r = []
    for p in str(loc).split('|'):
        m = re.match(r'(.*?):(\d+):(.*)', p)
        if m:
            f = m.group(1).replace(lib.REPO + '/', '')
            r.append('%s:%s:%s' % (f, m.group(2), re.sub(r'<.*', '', m.group(3))))
        else:
            r.append(p)
    r = [x for x in r if 'include/' in x or 'lib/' in x] or r
    out = []
    for x in r:
        if x not in out:
            out.append(x)
    return ' < '.join(out[:5])


def findings(pid):
    known, fixed = [], []
    p = os.path.join(lib.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3)))
            m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
            if m and m.group(1) == pid:
                fixed.append(m.group(3))
    return known, fixed
