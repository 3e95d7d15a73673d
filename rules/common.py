"""Reporting: violations, known findings, evidence."""
import json
import os
import sys
import time

import facts

VERIF = facts.VERIF


class Report:
    def __init__(self, pid, thorough=False):
        self.pid = pid
        self.t0 = time.time()
        self.tier = 'thorough' if thorough else 'quick'
        self.viol = {}          # key -> (loc, text)
        self.counts = {}
        self.samples = {}
        self.notes = []
        self.assumptions = []
        self.units = None
        self.shortages = []

    def violation(self, key, loc, text):
        """key: stable identification of the finding (no line numbers)."""
        if key not in self.viol:
            self.viol[key] = (loc, text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, name, item, limit=12):
        l = self.samples.setdefault(name, [])
        if len(l) < limit and item not in l:
            l.append(item)

    def need(self, name, minimum):
        """The analysis is broken when it finds fewer instances than were confirmed by hand (a violation found all the same is reported first)."""
        if self.counts.get(name, 0) < minimum:
            self.shortages.append('%s: only %d instances of "%s" were found, at least %d are expected' % (self.pid, self.counts.get(name, 0), name, minimum))

    def finish(self, rule, level='other'):
        known = {}
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            with open(kf) as fh:
                for k in json.load(fh).get('findings', ()):
                    if k['property'] == self.pid:
                        known[k['key']] = k
        new = []
        for key, (loc, text) in sorted(self.viol.items(), key=lambda x: x[1][0]):
            if key in known:
                print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, loc, known[key].get('what', text)))
            else:
                new.append((key, loc, text))
        if self.shortages and not new:
            raise facts.Broken('; '.join(self.shortages))
        rdir = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rdir, exist_ok=True)
        edir = os.environ.get('BALAU_EVIDENCE', os.path.join(VERIF, 'evidence'))
        os.makedirs(edir, exist_ok=True)
        for i, (key, loc, text) in enumerate(new):
            rp = os.path.join(rdir, '%s-%d.txt' % (self.pid, i))
            with open(rp, 'w') as fh:
                fh.write('property %s\nkey %s\nat %s\n%s\nrule: %s\n' % (self.pid, key, loc, text, rule))
            print('%s: %s [%s]' % (loc, text, key))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        cov = {'explanation': rule}
        cov.update({k.replace(' ', '_'): v for k, v in self.counts.items()})
        if self.samples:
            cov['samples'] = self.samples
        if self.units is not None:
            cov['translation_units'] = len(self.units)
            cov['translation_units_ok'] = sum(1 for u in self.units if u['ok'])
        if self.notes:
            cov['notes'] = self.notes
        if level == 'proof':
            cov['checker_cmd'] = 'python3 rules/check.py ' + self.pid
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new),
              'known_findings': len(self.viol) - len(new)}
        ev.pop('known_findings')
        cov['known_findings'] = len(self.viol) - len(new)
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        with open(os.path.join(edir, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
            fh.write('\n')
        return 1 if new else 0
