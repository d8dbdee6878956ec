"""What a check reports: evidence, violations, replay folders."""
import json, os, shutil, sys, time
from lib import build
V = build.V

class CheckError(Exception):
    """the check itself could not do its work"""

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.t0 = pid, tier, seed, time.time()
        self.dir = '%s/run/%s' % (build.B, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replay_dir = '%s/replay/%s' % (build.B, pid)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.bound, self.notes, self.viol = [], [], [], {}, []
        self.known = known(pid)
        self.hit = set()

    def thorough(self):
        return self.tier == 'thorough'

    def violation(self, what, files=(), text=''):
        for k, (pat, line) in enumerate(self.known):
            if pat in what:
                self.hit.add(k)
                return
        n = len(self.viol)
        d = '%s/%d' % (self.replay_dir, n)
        os.makedirs(d, exist_ok=True)
        for f in files:
            try:
                (shutil.copytree if os.path.isdir(f) else shutil.copy)(f, d + '/' + os.path.basename(f))
            except OSError:
                pass
        open(d + '/what.txt', 'w').write(what + '\n' + text + '\n')
        self.viol.append((what, d))

    def model(self, name, states, transitions, constants):
        self.states += states
        self.transitions += transitions
        self.models.append({'model': name, 'distinct_states': states, 'transitions': transitions, 'constants': constants})

    def finish(self, assumptions=()):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                               trace_events=self.events, models=self.models, binding=self.bound,
                               samples=self.samples[:4] or ['none'], **self.notes),
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.viol)}
        os.makedirs(V + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (V, self.pid), 'w') as o:
            json.dump(ev, o, indent=1)
            o.write('\n')
        for k in sorted(self.hit):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k][1]))
        for what, d in self.viol:
            print('%s: %s' % (self.pid, what))
            print('VIOLATION property=%s replay=%s' % (self.pid, d))
        if not self.viol:
            print('%s held: %d traces (%d events), %d states, %.0f s' % (self.pid, self.traces, self.events, self.states, time.time() - self.t0))
        return 1 if self.viol else 0

def known(pid):
    """open findings of KNOWN_FINDINGS.txt: 'property=<id> match=<text> :: <what fails>'"""
    out = []
    f = V + '/KNOWN_FINDINGS.txt'
    for l in open(f) if os.path.exists(f) else []:
        if l.startswith('property=%s ' % pid) and ' :: ' in l:
            head, what = l.rstrip('\n').split(' :: ', 1)
            out.append((head.split('match=', 1)[1], what))
    return out
