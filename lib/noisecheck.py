"""C29: thermal motion of many particles over many steps, normalized and judged by spec/Noise."""
import json, math, os, random, shutil
from lib import build, mpi, tlc
from lib.report import CheckError
from lib.scen import n17, nv, unit
CHECKS = {}

def scene(run, r, name, ranks, threads, n, steps, mono, imm, fixed=0):
    d = '%s/%s' % (run.dir, name)
    os.makedirs(d, exist_ok=True)
    edge = 30.0 if not mono else 60.0
    lo = [r.choice([0.0, -7.5]) for _ in range(3)]
    kbt, dt, mu = r.choice([0.00411, 0.1, 1.0]), r.choice([0.001, 0.01, 0.003]), r.choice([1.0, 0.5, 3.0])
    parts, lines, ids = [], [], random.Random(r.random()).sample(range(3 * n), n)
    for k in range(n):
        kind = r.choice(['rod', 'ball', 'short'])
        rad = r.choice([0.25, r.uniform(0.1, 0.4)])
        ln = {'rod': rad * r.uniform(2.5, 10), 'short': rad * r.uniform(0.2, 1.7), 'ball': 0.0}[kind]
        c = [a + r.uniform(0.5, edge - 0.5) for a in lo]
        u = unit(r)
        if mono:
            a = r.uniform(0, 2 * math.pi)
            u = [math.cos(a), math.sin(a), 0.0]
            c[2] = lo[2] + edge / 2
        a, b = [c[i] - u[i] * ln / 2 for i in range(3)], [c[i] + u[i] * ln / 2 for i in range(3)]
        s = imm and r.random() < 0.15
        lines.append('%s %d %.17g %s %s' % ('S' if s else 'C', ids[k], rad, ' '.join('%.17g' % x for x in a), ' '.join('%.17g' % x for x in b)))
        parts.append({'id': ids[k], 'imm': int(bool(s)), 'r': n17(rad), 'l': n17(ln), 'kind': kind})
    open(d + '/init.dat', 'w').write('%d\n0\n' % n + '\n'.join(lines) + '\n')
    seed = r.randrange(1, 10 ** 6)
    open(d + '/run.yaml', 'w').write('\n'.join([
        'rngSeed: %d' % seed, 'logLevel: 4', 'timerLevel: 4', 'simBoxLow: [%s]' % ', '.join(nv(lo)), 'simBoxHigh: [%s]' % ', '.join(nv([a + edge for a in lo])),
        'simBoxPBC: [true, true, %s]' % ('false' if mono else 'true'), 'monolayer: %s' % ('true' if mono else 'false'), 'viscosity: %s' % n17(mu), 'KBT: %s' % n17(kbt),
        'initPreSteps: 0', 'linkKappa: 100', 'linkGap: 0', 'sylinderFixed: %s' % ('true' if fixed else 'false'), 'sylinderNumber: %d' % n, 'sylinderLength: 1', 'sylinderLengthSigma: -1',
        'sylinderDiameter: 0.5', 'sylinderColBuf: 0', 'sylinderDiameterColRatio: 0.5', 'sylinderLengthColRatio: 0.5', 'dt: %s' % n17(dt), 'timeTotal: 1000', 'timeSnap: 500',
        'conResTol: 1e-4', 'conMaxIte: 500', 'conSolverChoice: 0']) + '\n')
    cfg = {'op': 'cfg', 'kbt': n17(kbt), 'dt': n17(dt), 'mu': n17(mu), 'mono': int(mono), 'parts': parts, 'ranks': ranks, 'threads': threads}
    open(d + '/script', 'w').write('\n'.join(['scn ' + d, 'init run.yaml init.dat', 'noise %d' % steps, 'end']) + '\n')
    return d, cfg, steps

def c29(run):
    build.build(['drv_sys'])
    r = random.Random(run.seed * 7 + 1)
    big = 4 if run.thorough() else 1
    S = [scene(run, r, 'a', 1, 1, 300, 120 * big, False, False), scene(run, r, 'b', 2, 2, 300, 120 * big, False, True), scene(run, r, 'c', 3, 1, 300, 120 * big, True, True),
         scene(run, r, 'd', 4, 2, 300, 120 * big, False, False), scene(run, r, 'e', 1, 4, 300, 120 * big, False, False)]
    if run.thorough():
        S += [scene(run, r, 'f', 5, 1, 400, 300, False, True), scene(run, r, 'g', 2, 3, 200, 300, True, False), scene(run, r, 'h', 1, 2, 300, 100, False, False, fixed=1)]
    files = []
    for d, cfg, steps in S:
        rc, out = mpi.run('drv_sys', [d + '/script'], cfg['ranks'], cfg['threads'], timeout=300, log=d + '/log')
        if rc != 0:
            rc, out = mpi.run('drv_sys', [d + '/script'], cfg['ranks'], cfg['threads'], timeout=300, log=d + '/log')
        if rc != 0:
            run.violation('a valid run fails', [d], out)
            continue
        ev = [json.loads(l) for l in open(d + '/trace.ndjson')]
        ev = [e for e in ev if e['op'] == 'noise'] + [{'op': 'judge', 'steps': steps}]
        f = d + '/noise.ndjson'
        with open(f, 'w') as o:
            for e in [cfg] + ev:
                o.write(json.dumps(e) + '\n')
        files.append((d, cfg, ev, f))
    ok = []
    for (d, cfg, ev, f), (acc, why, states, out) in zip(files, tlc.traces('Noise', [x[3] for x in files], run.pid)):
        run.states += states
        run.transitions += states
        run.events += states - 1
        if acc:
            run.traces += 1
            ok.append((d, cfg, ev, f))
        else:
            run.violation('%s after %d steps, %d ranks, %d threads' % ('; '.join(why), states, cfg['ranks'], cfg['threads']), [d], out[-3000:])
    run.notes['normal numbers judged'] = sum((3 if c['mono'] else 6) * len(c['parts']) * (len(e) - 1) for _, c, e, _ in ok)
    for d, cfg, ev, f in ok[:2]:
        run.samples.append({'ranks': cfg['ranks'], 'threads': cfg['threads'], 'kT': cfg['kbt'], 'dt': cfg['dt'], 'viscosity': cfg['mu'], 'first': ev[0]['st'][0][:2]})
    if run.viol:
        return
    def scaled(q):
        return ['%.17g' % (float(x) * 1.06) for x in q]
    jobs = []
    def bad(name, k, change):
        d, cfg, ev, f = ok[k]
        e2 = json.loads(json.dumps(ev))
        change(cfg, e2)
        p = '%s/bind_%s.ndjson' % (run.dir, name)
        with open(p, 'w') as o:
            for e in [cfg] + e2:
                o.write(json.dumps(e) + '\n')
        jobs.append((name, p))
    def hot(cfg, ev):
        for e in ev[:-1]:
            for q in e['st']:
                for p in q:
                    p['w'] = scaled(p['w'])
    def moved(cfg, ev):
        for q in ev[3]['st']:
            for p in q:
                if {x['id']: x['imm'] for x in cfg['parts']}[p['id']]:
                    p['v'][0] = '1e-9'
                    return
        raise CheckError('nothing immovable')
    def again(cfg, ev):
        for a, b in zip(ev[4]['st'][0], ev[5]['st'][0]):
            b['w'] = a['w']
    bad('hot', 0, hot)
    bad('moved', 1, moved)
    bad('again', 4, again)
    for (name, f), (acc, why, states, out) in zip(jobs, tlc.traces('Noise', [f for _, f in jobs], run.pid)):
        if acc:
            raise CheckError('corrupted trace %s was accepted' % f)
        run.bound.append({'corruption': name, 'rejected_by': why})
        os.unlink(f)
CHECKS['C29'] = c29
