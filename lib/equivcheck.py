"""C19: the same scenario on several numbers of ranks and threads, and twice on the same; compared by SimEquiv."""
import copy, json, os, random
from lib import build, scen, simcheck, tlc
from lib.report import CheckError
CHECKS = {}
OVER = {'groups': [[1, 1]], 'plain': [1], 'tight': [1], 'kick': [0, 0, 1], 'imm': [0, 1], 'chain': [0, 1, 2],
        'size': ['few', 'many', 'many', 'big'], 'bnd': ['none', 'none', 'wall', 'sphere-in'], 'restr': ['free', 'free', 'free', 'mono', 'fixed']}
KEEP = ('id', 'grp', 'imm', 'r', 'l', 'rc', 'lc', 'p', 'q', 'v', 'w', 'vN', 'wN', 'vR', 'wR')

def variant(sched, groups, seed, d):
    s = copy.deepcopy(sched)
    s['feat']['groups'] = list(groups)
    return scen.Scenario(s, seed, d)

def one(e):
    """what SimEquiv needs of an event of one run"""
    o = {}
    if e['op'] in ('init', 'prepare', 'run', 'restart'):
        o['st'] = [{k: p[k] for k in KEEP if k in p} for q in e['st'] for p in q]
        o['step'], o['snap'] = e.get('step', 0), e.get('snap', 0)
    if e['op'] == 'run':
        o['res'] = e['res']
    if e['op'] == 'links':
        o['lk'] = [{'fw': q['fw']} for q in e['lk']]
    if e['op'] == 'order':
        o['all'] = e['P'] + e['Q']
    if e['op'] == 'volume':
        o['all'] = [e['vol'], e['frac']]
    if e['op'] == 'bbox':
        o['all'] = e['bb'][0]['gl'] + e['bb'][0]['gh']
    return o

def merge(runs):
    """runs: events of each variant -> events with all of them"""
    L = [[e for e in r if e['op'] in ('init', 'prepare', 'run', 'restart', 'links', 'order', 'volume', 'bbox')] for r in runs]
    n = min(len(x) for x in L)
    if len({len(x) for x in L}) != 1 or any(len({x[k]['op'] for x in L}) != 1 for k in range(n)):
        raise CheckError('runs of the same script have other events')
    return [{'op': L[0][k]['op'], 'runs': [one(x[k]) for x in L]} for k in range(n)]

def rounds(run, n, seed, kind):
    if kind == 'split':
        over, ops = dict(OVER), ['link', 'twice', 'restart']
    else:
        over, ops = dict(OVER, heat=[1], gen=[0, 1], groups=[[1, 1], [2, 2], [3, 1], [1, 4], [4, 2]], restr=['free', 'mono']), ['link', 'twice', 'restart']
    cands = scen.schedules(n * 5, seed, ops, over, 4)
    picked, combos = simcheck.rank_candidates(cands, n)
    sets = [[(1, 1), (2, 2), (3, 1), (1, 4)], [(1, 1), (4, 1), (2, 1), (5, 1)], [(1, 2), (3, 2), (4, 2), (2, 3)]]
    S = []
    for i, s in enumerate(picked):
        gs = sets[i % len(sets)] if kind == 'split' else [s['feat']['groups']] * 2
        S.append([variant(s, g, seed * 7919 + i, '%s/%s%d_%d_%d' % (run.dir, kind, seed, i, k)) for k, g in enumerate(gs)])
    bad = {id(s): b for s, b in scen.run_all([s for g in S for s in g], run.dir, timeout=250)}
    files = []
    for k, g in enumerate(S):
        lost = False
        for s in g:
            if bad[id(s)]:
                run.violation('a valid run fails: %s' % bad[id(s)].split('\n')[0], [s.d], bad[id(s)])
                lost = True
            elif s.collect() is None:
                run.violation('a valid run ends early', [s.d])
                lost = True
        if lost:
            continue
        ev = merge([s.events for s in g])
        f = '%s/%s%d_%d.ndjson' % (run.dir, kind, seed, k)
        with open(f, 'w') as o:
            for e in [g[0].cfg] + ev:
                o.write(json.dumps(e) + '\n')
        files.append((ev, f, g))
        c = run.notes.setdefault('counted', {})
        for e in ev:
            c[kind + ' ' + e['op']] = c.get(kind + ' ' + e['op'], 0) + 1
    ok = []
    for (ev, f, g), (acc, why, states, out) in zip(files, tlc.traces('SimEquiv', [f for _, f, _ in files], run.pid)):
        run.states += states
        run.transitions += states
        run.events += states - 1
        if acc:
            run.traces += 1
            ok.append((ev, f, g))
        else:
            run.violation('%s at event %d (%s), runs %s' % ('; '.join(why), states, ev[states - 1]['op'] if 0 < states <= len(ev) else '',
                          ' '.join('%dx%d' % (s.ranks, s.threads) for s in g)), [f] + [s.d for s in g], out[-3000:])
    run.notes['schedules'] = run.notes.get('schedules', 0) + len(S)
    for ev, f, g in ok[:2]:
        run.samples.append({'runs': ['%dx%d' % (s.ranks, s.threads) for s in g], 'features': g[0].f, 'calls': g[0].lines[1:10]})
    return ok

def c19(run):
    build.build(['drv_sys'])
    ok = rounds(run, 9, run.seed * 1000, 'split')
    rep = rounds(run, 6, run.seed * 1000 + 500, 'repeat')
    if run.thorough():
        for k in range(1, 7):
            rounds(run, 15, run.seed * 1000 + k, 'split')
            rounds(run, 8, run.seed * 1000 + 500 + k, 'repeat')
            if run.viol or __import__('time').time() - run.t0 > 500:
                break
    if run.viol:
        return
    def shift(ev):
        for e in ev:
            if e['op'] == 'prepare' and e['runs'][-1]['st']:
                p = e['runs'][-1]['st'][0]['p']
                p[1] = '%.17g' % (float(p[1]) + 1e-2)
                return True
    def lost(ev):
        for e in ev:
            if e['op'] == 'run' and len(e['runs'][-1]['st']) > 1:
                e['runs'][-1]['st'].pop()
                return True
    def speed(ev):
        for e in ev:
            if e['op'] == 'run' and e['runs'][0]['st'] and all(float(x['res']) < 1e-5 for x in e['runs']):
                m = max([1.0] + [abs(float(x)) for p in e['runs'][0]['st'] for x in p['v'] + p['w']])
                v = e['runs'][1]['st'][0]['v']
                v[0] = '%.17g' % (float(v[0]) + 1e-3 * m)
                return True
    def noise(ev):
        for e in ev:
            if e['op'] == 'run' and e['runs'][0]['st']:
                v = e['runs'][1]['st'][0]['vR']
                v[0] = '%.17g' % (float(v[0]) + 0.5)
                return True
    jobs = []
    for src, ch in ((ok, shift), (ok, lost), (ok, speed), (rep, noise)):
        for ev, f, g in src:
            e2 = copy.deepcopy(ev)
            if ch(e2):
                p = '%s/bind_%s%d.ndjson' % (run.dir, ch.__name__, len(jobs))
                with open(p, 'w') as o:
                    for e in [g[0].cfg] + e2:
                        o.write(json.dumps(e) + '\n')
                jobs.append((ch.__name__, p))
    # a change of a run that is not compared any more goes unnoticed: one of each kind has to be noticed
    for (name, f), (acc, why, states, out) in zip(jobs, tlc.traces('SimEquiv', [f for _, f in jobs], run.pid)):
        if not acc and name not in {b['corruption'] for b in run.bound}:
            run.bound.append({'corruption': name, 'rejected_by': why})
        os.unlink(f)
    if len(run.bound) < 4:
        raise CheckError('changed traces were accepted: only %s noticed' % [b['corruption'] for b in run.bound])
CHECKS['C19'] = c19
