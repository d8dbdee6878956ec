"""Checks decided by SimSystem: schedules from SimSched are run on the real system and the recorded
runs are checked by SimTrace."""
import copy, json, os
from lib import build, scen, tlc
from lib.report import CheckError

def rank_candidates(cands, n, must=None):
    """picks n schedules that cover most (feature value, pair of features, operation) combinations"""
    if must:
        cands = [c for c in cands if must(c)]
    seen, out = set(), []
    def items(c):
        f = sorted((k, json.dumps(v)) for k, v in c['feat'].items())
        ops = [o['op'] + (str(o['b']) if o['op'] in ('add', 'link') else '') for o in c['ops']]
        return set(f) | {(a, b) for i, a in enumerate(f) for b in f[i + 1:]} | set(zip(ops, ops[1:])) | {('op', o) for o in ops}
    pool = [(c, items(c)) for c in cands]
    while pool and len(out) < n:
        k = max(range(len(pool)), key=lambda i: len(pool[i][1] - seen))
        c, it = pool.pop(k)
        seen |= it
        out.append(c)
    return out, len(seen)

def st_events(ev):
    return [e for e in ev if 'st' in e and any(e['st'])]

# --- binding: changes to a recorded run that must be rejected.  Each takes the events and changes them in place,
# or returns False when there is nothing to change.
def first(ev, f):
    for e in ev:
        r = f(e)
        if r is not None and r is not False:
            return True
    return False

def drop_particle(ev):
    def f(e):
        if e['op'] == 'prepare':
            for s in e['st']:
                if s:
                    s.pop()
                    return True
    return first(ev, f)
def shift_index(ev):
    def f(e):
        if e['op'] == 'prepare':
            for s in e['st']:
                if s:
                    s[0]['gi'] += 1
                    return True
    return first(ev, f)
def repeat_id(ev):
    def f(e):
        if e['op'] == 'add':
            for r, g in enumerate(e['ids']):
                if g:
                    old = g[0]
                    g[0] = 0
                    for s in e['st']:
                        for p in s:
                            if p['id'] == old:
                                p['id'] = 0
                    return True
    return first(ev, f)
def drop_link(ev):
    def f(e):
        for s in e.get('lk', []):
            if s['fw']:
                s['fw'].pop()
                return True
    return first(ev, f)
def blocks(kind):
    def g(change):
        def h(ev):
            def f(e):
                for q in e.get('bl', []) if e['op'] == 'run' else []:
                    for i, b in enumerate(q):
                        if kind(b):
                            return change(q, i, b)
            return first(ev, f)
        return h
    return g
pair = blocks(lambda b: not b['one'] and not b['bi'])
side = blocks(lambda b: b['one'])
bond = blocks(lambda b: b['bi'])
def gone(q, i, b):
    q.pop(i)
    return True
def gap(q, i, b):
    b['d'] = '%.17g' % (float(b['d']) + 0.01)
    return True
def turn(q, i, b):
    b['nI'] = ['%.17g' % -float(x) for x in b['nI']]
    return True
def push(q, i, b):
    b['g'] = '%.17g' % (float(b['g']) + 1.0)
    return True
def nudge(field, k, by=0.01, op='run', sel=lambda p: True):
    def h(ev):
        def f(e):
            if e['op'] == op:
                for s in e['st']:
                    for p in s:
                        if sel(p):
                            if k is None:
                                p[field] = '%.17g' % (float(p[field]) + by)
                            else:
                                p[field][k] = '%.17g' % (float(p[field][k]) + by)
                            return True
        return first(ev, f)
    return h
def disk_value(ev):
    def f(e):
        if e['op'] == 'disk':
            for s in e['part']:
                if s:
                    s[0]['grp'] += 1
                    return True
    return first(ev, f)
def disk_gap(ev):
    def f(e):
        if e['op'] == 'diskall' and len(e['all']) > 1:
            e['all'] = [n for n in e['all'] if n != 1]
            return True
    return first(ev, f)
def order_value(ev):
    def f(e):
        if e['op'] == 'order':
            e['P'][0] = '%.17g' % (float(e['P'][0]) + 1e-3)
            return True
    return first(ev, f)
def box_value(ev):
    def f(e):
        if e['op'] == 'bbox':
            e['bb'][-1]['gh'][1] = '%.17g' % (float(e['bb'][-1]['gh'][1]) + 1e-3)
            return True
    return first(ev, f)
def same_draws(ev):
    u = None
    for k, e in enumerate(ev):
        if e['op'] == 'draw':
            if u is not None and ev[k - 1]['op'] == 'restart' and ev[k - 1]['snap'] > 0:
                e['u'] = u
                return True
            u = e['u'] if u is None else u
def attr(field, op):
    def h(ev):
        def f(e):
            if e['op'] == op:
                for s in e['st']:
                    for p in s:
                        p[field] = p[field] + 1 if isinstance(p[field], int) else '%.17g' % (float(p[field]) + 0.01)
                        return True
        return first(ev, f)
    return h

def only(change, when):
    """the change is made to runs whose configuration satisfies the condition"""
    def h(ev):
        return change(ev)
    h.when = when
    return h

FILE = lambda c: not c['gen'] and not c['pre']
GEN = lambda c: c['gen']
ALLG = [[1, 1], [2, 2], [3, 1], [4, 2]]
# per property: what the schedules are made of, how many, and what must be noticed
BASE = dict(ops=['add', 'link', 'twice', 'restart'], n=14, steps=5, over={})
SYS = {
    'C01': dict(over={'groups': [[2, 2], [3, 1], [4, 2], [5, 1]], 'place': ['corner', 'face', 'middle', 'spread'], 'kick': [1], 'restr': ['free', 'free', 'mono']},
                bind=[drop_particle, attr('grp', 'prepare'), nudge('p', 0, op='prepare')]),
    'C02': dict(over={'groups': [[1, 1], [2, 2], [3, 1], [5, 1]], 'size': ['one', 'few', 'many'], 'chain': [0]}, ops=['add', 'add', 'restart'], steps=4,
                must=lambda c: sum(o['op'] == 'add' and o['a'] for o in c['ops']) > 3, bind=[repeat_id, attr('imm', 'add')]),
    'C03': dict(over={'chain': [1, 2], 'groups': [[1, 1], [2, 2], [3, 1], [4, 1]], 'size': ['few', 'many']}, ops=['link', 'add', 'restart'], steps=4,
                must=lambda c: any(o['op'] == 'link' and o['a'] for o in c['ops']), bind=[drop_link]),
    'C04': dict(over={'groups': [[2, 2], [3, 1], [4, 2], [5, 1]], 'size': ['one', 'few', 'many'], 'kick': [1]}, bind=[shift_index]),
    'C08': dict(over={'col': ['same', 'scaled', 'scaled'], 'size': ['few', 'many', 'many', 'big'], 'chain': [0, 1]}, steps=3, n=16,
                bind=[pair(gone)]),
    'C09': dict(over={'size': ['few', 'many', 'many', 'big'], 'col': ['same', 'scaled']}, steps=3, n=16, bind=[pair(gap), pair(turn)]),
    'C10': dict(over={'bnd': ['wall', 'tube-in', 'tube-out', 'sphere-in', 'sphere-out', 'two'], 'col': ['same', 'scaled'], 'chain': [0], 'imm': [0, 1]}, steps=3, n=18,
                bind=[side(gap), side(gone), side(turn)]),
    'C11': dict(over={'chain': [1, 2], 'size': ['few', 'many'], 'col': ['same', 'scaled']}, ops=['link', 'add', 'twice'], n=16, steps=4,
                bind=[bond(gone), bond(gap)]),
    'C14': dict(over={'bnd': ['none', 'none', 'wall', 'sphere', 'two'], 'size': ['few', 'many'], 'restr': ['free', 'free', 'mono'], 'heat': [0, 1]}, n=18, steps=4,
                bind=[pair(push), nudge('fC', 0), nudge('vB', 1), nudge('v', 2)]),
    'C15': dict(over={'heat': [0, 1], 'restr': ['free', 'free', 'mono', 'fixed'], 'bnd': ['none', 'none', 'wall'], 'body': ['rod', 'sphere', 'mixed']}, n=16,
                bind=[nudge('p', 0), nudge('vN', 0), nudge('q', 0)]),
    'C16': dict(over={'heat': [0, 1], 'restr': ['free', 'mono', 'mono', 'fixed'], 'imm': [1, 1, 0], 'bnd': ['none', 'none', 'wall', 'tube'], 'gen': [0, 0, 1]}, n=18,
                bind=[nudge('p', 2, sel=lambda p: p['imm'])]),
    'C17': dict(over={'every': [1, 2, 3], 'bnd': ['none', 'wall'], 'size': ['one', 'few', 'many'], 'chain': [0, 1, 2], 'groups': [[1, 1], [2, 2], [3, 1], [4, 1]]}, n=12, steps=7,
                bind=[disk_value, disk_gap]),
    'C18': dict(over={'every': [1, 2, 3], 'heat': [0, 1], 'chain': [0, 1, 2], 'restr': ['free', 'free', 'mono', 'fixed'], 'groups': [[1, 1], [2, 2], [3, 1], [4, 2]]}, n=16, steps=6,
                must=lambda c: any(o['op'] == 'restart' for o in c['ops']), bind=[nudge('p', 0, op='restart'), attr('grp', 'restart'), same_draws]),
    'C27': dict(over={'gen': [0, 1, 1], 'chain': [0, 1, 2], 'restr': ['free', 'free', 'mono', 'fixed'], 'groups': [[1, 1], [2, 2], [3, 1]]}, n=20, steps=1, ops=['link'],
                bind=[only(nudge('p', 0, op='init'), FILE), only(attr('grp', 'init'), FILE), only(nudge('r', None, op='init'), GEN)]),
    'C28': dict(over={'heat': [1], 'chain': [0, 1], 'size': ['one', 'few', 'many'], 'bnd': ['none', 'none', 'wall']}, ops=['add', 'restart'], n=16, steps=4,
                bind=[box_value, order_value]),
}

def measure(ev, c):
    def inc(k, n=1):
        c[k] = c.get(k, 0) + n
    for e in ev:
        inc('events ' + e['op'])
        if e['op'] == 'run':
            for q in e['bl']:
                for b in q:
                    inc('one-sided contacts' if b['one'] else 'links' if b['bi'] else 'pair contacts')
                    if b['i'] != b['j'] and float(b['g']) > 0 and not b['bi']:
                        inc('pair contacts that push')
            try:
                inc('steps solved' if float(e['res']) < 1e-4 else 'steps not solved')
            except ValueError:
                inc('steps not solved')
            if len(e['st']) > 1 and not all(e['st']):
                inc('steps with an empty rank')

def decide(run, pid, conf=None, over=None, drive='sys', n=None, steps=None, seed_off=0):
    """one round of scenarios; reports to run"""
    c = dict(BASE)
    c.update(conf or SYS[pid])
    n, steps = n or c['n'], steps or c['steps']
    ov = dict(c['over'])
    ov.update(over or {})
    seed = run.seed * 1000 + seed_off
    cands = tlc_scheds(n * 5, seed, c['ops'], ov, steps)
    picked, combos = rank_candidates(cands, n, c.get('must'))
    if len(picked) < n // 2:
        raise CheckError('only %d schedules' % len(picked))
    S = [scen.Scenario(s, seed * 7919 + i, '%s/%d_%d' % (run.dir, seed_off, i)) for i, s in enumerate(picked)]
    ok, counts = [], run.notes.setdefault('counted', {})
    for s, bad in scen.run_all(S, run.dir, timeout=150):
        if bad:
            run.violation('a valid run fails: %s' % bad.split('\n')[0], [s.d], bad)
            continue
        p = s.collect()
        if p is None:
            run.violation('a valid run ends early', [s.d])
            continue
        ok.append((s, p))
        measure(s.events, counts)
    for (s, p), (acc, why, states, out) in zip(ok, tlc.traces('SimTrace', [p for _, p in ok], pid)):
        run.states += states
        run.transitions += states
        if acc:
            run.traces += 1
            run.events += states - 1
        else:
            e = s.events[states - 1] if 0 < states <= len(s.events) else {}
            run.violation('%s at event %d (%s)' % ('; '.join(why), states, e.get('op')), [s.d], out[-3000:])
    run.notes['schedules'] = run.notes.get('schedules', 0) + len(S)
    run.notes['combinations covered'] = run.notes.get('combinations covered', 0) + combos
    for s, p in ok[:2]:
        run.samples.append({'features': s.f, 'calls': s.lines[1:12], 'file': os.path.relpath(p, build.V)})
    return ok

def tlc_scheds(num, seed, ops, over, steps):
    return scen.schedules(num, seed, ops, over, steps)

def bind(run, pid, ok, changes, module='SimTrace'):
    """shows that the trace check notices: each change to an accepted recorded run must be rejected"""
    jobs = []
    for i, ch in enumerate(changes):
        for s, p in sorted(ok, key=lambda x: os.path.getsize(x[1])):
            if hasattr(ch, 'when') and not ch.when(s.cfg):
                continue
            ev = copy.deepcopy(s.events)
            if ch(ev):
                f = '%s/bind%d.ndjson' % (run.dir, i)
                with open(f, 'w') as o:
                    for e in [s.cfg] + ev:
                        o.write(json.dumps(e) + '\n')
                jobs.append((getattr(ch, '__qualname__', str(ch)).split('.')[0] + str(i), f))
                break
        else:
            raise CheckError('no run to show that change %d is noticed' % i)
    for (name, f), (acc, why, states, out) in zip(jobs, tlc.traces(module, [f for _, f in jobs], pid)):
        if acc:
            raise CheckError('corrupted trace %s was accepted' % f)
        run.bound.append({'corruption': name, 'rejected_by': why})
        os.unlink(f)

def check(run):
    pid = run.pid
    build.build(['drv_sys'])
    conf = SYS[pid]
    ok = decide(run, pid)
    if run.thorough():
        for k in range(1, 9):
            decide(run, pid, seed_off=k, n=24, steps=conf.get('steps', 5) + k % 3)
            if run.viol or __import__('time').time() - run.t0 > 500:
                break
    if not run.viol:
        bind(run, pid, ok, conf['bind'])
