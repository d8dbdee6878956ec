"""Turns schedules (behaviours of spec/SimSched.tla) into input files and a script for drv_sys,
runs them, and turns what came out into traces for spec/SimTrace.tla."""
import json, math, os, random
from lib import disk, mpi, build, tlc
Z = ['0', '0', '0']
n17 = disk.num

def nv(v):
    return [n17(float(x)) for x in v]

def unit(rng):
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if n > 1e-3:
            return [x / n for x in v]

def quat_to(u):
    """a unit quaternion (x, y, z, w) that takes the z axis to u"""
    c = u[2]
    if c < -0.999999:
        return [1.0, 0.0, 0.0, 0.0]
    q = [-u[1], u[0], 0.0, 1 + c]
    n = math.sqrt(sum(x * x for x in q))
    return [x / n for x in q]

# the choices a schedule is made of; a check narrows them
FEAT = [('groups', [[1, 1], [2, 2], [3, 1], [4, 2]]), ('pbc', [[0, 0, 0], [1, 1, 1], [1, 0, 1], [0, 1, 0], [0, 0, 1]]),
        ('body', ['rod', 'sphere', 'mixed', 'mixed']), ('bnd', ['none']), ('restr', ['free']), ('heat', [0]),
        ('col', ['same', 'scaled']), ('every', [1, 2, 3]), ('solver', [0, 1]), ('imm', [0, 1]), ('chain', [0, 1]),
        ('size', ['one', 'few', 'many', 'many']), ('place', ['corner', 'face', 'middle', 'spread']), ('gen', [0]), ('kick', [0, 1]), ('plain', [0]), ('tight', [0])]

def schedules(num, seed, ops, over=None, steps=5, depth=60):
    over = over or {}
    ask = {'order': [k for k, _ in FEAT], 'opts': {k: over.get(k, v) for k, v in FEAT}, 'ops': ops, 'steps': steps}
    out = tlc.simulate('SimSched', num, depth, seed, ask)
    for s in out:
        s['feat'] = dict(zip(ask['order'], s['feat']))
    return out

class Scenario:
    def __init__(self, sched, seed, d):
        self.f, self.ops, self.rng, self.d = sched['feat'], sched['ops'], random.Random(seed), d
        self.ranks, self.threads = self.f['groups']
        os.makedirs(d, exist_ok=True)
        self.build()

    def file(self, name, text):
        open('%s/%s' % (self.d, name), 'w').write(text)
        return name

    def body(self):
        r, f = self.rng, self.f
        kind = f['body'] if f['body'] != 'mixed' else r.choice(['rod', 'sphere', 'rod', 'short'])
        rad = r.choice([0.25, 0.3, 0.4, r.uniform(0.2, 0.45)])
        ln = {'rod': r.choice([1.5, 2.0, r.uniform(1.0, 2.4)]), 'sphere': 0.0, 'short': rad * r.uniform(0.2, 1.6)}[kind]
        if kind == 'sphere' and r.random() < 0.4:
            ln = rad * 0.5
        return rad, ln

    def centre(self):
        r, f = self.rng, self.f
        L, H = self.lo, self.hi
        mid = [(a + b) / 2 for a, b in zip(L, H)]
        p = f['place']
        if f['bnd'] != 'none':
            return self.near_boundary()
        if p == 'spread':
            return [r.uniform(a, b - 1e-9) for a, b in zip(L, H)]
        base = list(mid)
        if p == 'corner':
            base = list(L)
        elif p == 'face':
            k = self.face
            base[k] = L[k]
        c = [b + r.gauss(0, self.spread) for b in base]
        for k in range(3):
            e = H[k] - L[k]
            c[k] = L[k] + (c[k] - L[k]) % e
            if c[k] >= H[k]:
                c[k] = L[k]
        return c

    def near_boundary(self):
        r = self.rng
        b = r.choice(self.bnd)
        k, R = b['kind'], float(b['r'])
        off = r.choice([r.uniform(-0.5, 2.5), r.uniform(-0.2, 0.8), r.uniform(1, 3.0)])
        c, n = b['cf'], b['nf']
        if k == 'wall':
            t = [r.uniform(-3, 3) for _ in range(3)]
            d = sum(x * y for x, y in zip(t, n))
            p = [c[i] + t[i] - d * n[i] + off * n[i] for i in range(3)]
        else:
            rad = max(0.05, R - off if b['in'] else R + off)
            u = unit(r)
            if k == 'tube':
                d = sum(x * y for x, y in zip(u, n))
                u = [u[i] - d * n[i] for i in range(3)]
                m = math.sqrt(sum(x * x for x in u)) or 1
                z = r.uniform(-3, 3)
                p = [c[i] + u[i] / m * rad + z * n[i] for i in range(3)]
            else:
                p = [c[i] + u[i] * rad for i in range(3)]
        return [min(max(p[i], self.lo[i]), self.hi[i] - 1e-6) for i in range(3)]

    def build(self):
        r, f = self.rng, self.f
        o = [r.choice([0.0, -5.0, 1.25, r.uniform(-20, 20)]) for _ in range(3)]
        e = [r.choice([10.0, 11.0, 12.5]) for _ in range(3)]
        self.lo, self.hi = o, [a + b for a, b in zip(o, e)]
        self.face, self.spread = r.randrange(3), r.uniform(0.9, 1.6)
        pbc = f['pbc']
        if f['restr'] == 'mono':
            pbc = [pbc[0], pbc[1], 0]
        mid = [(a + b) / 2 for a, b in zip(self.lo, self.hi)]
        self.bnd = []
        kinds = [] if f['bnd'] == 'none' else r.sample(['wall', 'tube', 'sphere'], 2) if f['bnd'] == 'two' else [f['bnd'].split('-')[0]]
        for k in kinds:
            n = r.choice([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0], unit(r)])
            ins = 1 if f['bnd'].endswith('-in') else 0 if f['bnd'].endswith('-out') else r.randrange(2)
            R = r.choice([2.5, 3.0, 4.0]) if ins else r.choice([0.8, 1.5, 2.5])
            c = [m + r.uniform(-0.5, 0.5) for m in mid]
            if f['restr'] == 'mono':     # boundaries that are mirrored by the plane
                c[2] = mid[2]
                n = r.choice([[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.6, 0.8, 0.0]] + ([[0.0, 0.0, 1.0]] if k == 'tube' else []))
            s = r.choice([1.0, 1.0, 3.0]) if k != 'sphere' else 1.0
            self.bnd.append({'kind': k, 'cf': c, 'nf': n, 'c': nv(c), 'r': n17(R), 'n': nv(n), 'in': ins, 'raw': [x * s for x in n]})
        kbt = 0.00411 if f['heat'] else 0.0
        every = f['every']
        dt = r.choice([0.01, 0.1, 0.05, 0.02, 0.025])
        if f['restr'] == 'mono':
            dt = r.choice([0.01, 0.02])
        snap = {1: dt, 2: 2 * dt, 3: 3 * dt}[every]
        if r.random() < 0.5:       # written with few decimals, as a user would
            snap = float('%.3g' % snap)
        colb = r.choice([0.3, 0.1, 0.0, 0.2])
        dr, lr = (1.0, 1.0) if f['col'] == 'same' else r.choice([(1.2, 1.0), (0.8, 1.3), (1.5, 0.9), (1.1, 1.1)])
        mu, kap, gap = r.choice([1.0, 0.05, 0.3]), r.choice([100.0, 10.0, 500.0]), r.choice([0.01, 0.05, 0.0])
        tol = r.choice([1e-5, 1e-6]) if not f['tight'] else 1e-5
        self.seed = r.randrange(1, 10 ** 6)
        n = {'one': r.choice([1, 2]), 'few': r.randrange(3, 7), 'many': r.randrange(14, 26), 'big': r.randrange(40, 60)}[f['size']]
        if f['restr'] == 'mono':
            n = min(n, 16)
        parts, ids = [], []
        chain = []
        if f['chain'] and n >= 3:
            # a chain of rods, end to end, through the box
            m = min(n - 1, r.randrange(3, 7))
            u = unit(r)
            p = self.centre()
            rad = 0.3
            for i in range(m):
                ln = r.choice([1.5, 0.9, 0.3])
                if i:
                    p = [p[k] + u[k] * (prev / 2 + ln / 2 + 2 * rad + gap + r.uniform(-0.1, 0.2)) for k in range(3)]
                prev = ln
                q = [self.lo[k] + (p[k] - self.lo[k]) % e[k] if pbc[k] else p[k] for k in range(3)]
                v = [u[k] + r.gauss(0, 0.1) for k in range(3)]
                nn = math.sqrt(sum(x * x for x in v))
                parts.append([rad, ln, q, [x / nn for x in v]])
                chain.append(i)
        while len(parts) < n:
            rad, ln = self.body()
            u = unit(r)
            c = self.centre()
            x = r.random()
            if parts and x < 0.15 and f['restr'] != 'mono' and not f['plain']:   # exactly parallel / stacked neighbours
                b = r.choice(parts)
                u = list(b[3])
                w = unit(r)
                c = [b[2][k] + w[k] * (rad + b[0]) * r.choice([1.0, 0.9, 1.2]) for k in range(3)]
                c = [self.lo[k] + (c[k] - self.lo[k]) % e[k] if pbc[k] else c[k] for k in range(3)]
            elif x < 0.25 and not f['plain']:
                u = r.choice([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0], [0, 0, -1.0]])
            elif x < 0.32 and f['bnd'] == 'none':              # exactly on the lower face
                k = r.randrange(3)
                c[k] = self.lo[k]
            parts.append([rad, ln, c, u])
        if f['restr'] == 'mono':   # in the plane, apart enough that axes do not cross
            parts = parts[:n]
            cells = [(i, j) for i in range(4) for j in range(4)]
            r.shuffle(cells)
            for b, (i, j) in zip(parts, cells):
                b[2] = [self.lo[0] + 1.3 + 2.5 * i, self.lo[1] + 1.3 + 2.5 * j, mid[2] + r.uniform(-1, 1)]
                a = r.uniform(-0.3, 0.3) + r.choice([0, math.pi])
                t = r.uniform(-0.4, 0.4)
                b[3] = [math.cos(a) * math.cos(t), math.sin(a) * math.cos(t), math.sin(t)]
                b[1] = min(b[1], 1.6)
        idp = r.choice([0, 3, 100])
        order = list(range(n))
        gids = [idp + i * r.choice([1, 1, 2]) for i in range(n)]
        gids = sorted(set(gids))
        while len(gids) < n:
            gids.append(gids[-1] + 1)
        if f['gen'] == 0:
            r.shuffle(order)
        lines, init, still = [], [], []
        for i in order:
            rad, ln, c, u = parts[i]
            a = [c[k] - u[k] * ln / 2 for k in range(3)]
            b = [c[k] + u[k] * ln / 2 for k in range(3)]
            imm = 1 if f['imm'] and r.random() < 0.3 else 0
            if imm:     # two that cannot move and touch, or touch a boundary, would have no solution
                imm = int(not self.bnd and all(sum((x - y) ** 2 for x, y in zip(c, b[2])) > (1.6 * (ln / 2 + rad + b[1] / 2 + b[0])) ** 2 for b in still))
                if imm:
                    still.append(parts[i])
            grp = r.choice([None, -1, 0, 7, i])
            lines.append('%s %d %.17g %s %s%s' % ('S' if imm else 'C', gids[i], rad, ' '.join('%.17g' % x for x in a),
                                               ' '.join('%.17g' % x for x in b), '' if grp is None else ' %d' % grp))
            d = [b[k] - a[k] for k in range(3)]
            ll = math.sqrt(sum(x * x for x in d))
            init.append({'id': gids[i], 'grp': -1 if grp is None else grp, 'imm': imm, 'r': n17(rad), 'l': n17(ll),
                         'p': nv([(a[k] + b[k]) / 2 for k in range(3)]), 'u': nv([x / ll for x in d] if ll > 1e-7 else [0, 0, 1])})
        self.gids = set(gids)
        self.imm = {x['id'] for x in init if x['imm']}
        links = []
        for i in range(len(chain) - 1):
            links.append([gids[chain[i]], gids[chain[i + 1]]])
        if f['chain'] and n >= 3:
            links.append([gids[chain[0]], gids[-1]])          # a branch
            r.shuffle(links)
        ll = ['L %d %d' % tuple(x) for x in links]
        if f['chain'] == 2 and ll:
            ll.append(r.choice(ll))                             # given twice
            links = [[int(x) for x in l.split()[1:]] for l in ll]
        text = lines + ll
        if r.random() < 0.3 and ll:
            r.shuffle(text)
        pre = 0
        if f['gen'] == 0:
            self.file('init.dat', '%d\n0\n' % n + '\n'.join(text) + '\n')
        else:
            links, init, pre = [], [], r.choice([0, 0, 3]) * (1 - f['plain'])
            n = r.choice([1, 5, 20, 40])
            self.gids = set(range(n))
            self.imm = set()
        ibl = [a + r.choice([0, 0.5, 2]) for a in self.lo]
        ibh = [b - r.choice([0, 0.5, 3]) for b in self.hi]
        orient = r.choice([[2, 2, 2], [0, 0, 1], [0, 1, 2], [1, 0, 0], [2, 2, 0], [0.6, -0.8, 0], [0, 0, -1]])
        circ = 1 if f['gen'] and r.random() < 0.3 else 0
        sig = r.choice([-1, 0.3]) if f['gen'] else -1
        ln = r.choice([1.0, 0.2])
        y = ['rngSeed: %d' % self.seed, 'logLevel: 4', 'timerLevel: 4'] + \
            ['%s: [%s]' % (k, ', '.join('%.17g' % x for x in v)) for k, v in (('simBoxLow', self.lo), ('simBoxHigh', self.hi))] + \
            ['simBoxPBC: [%s]' % ', '.join('true' if x else 'false' for x in pbc),
             'monolayer: %s' % ('true' if f['restr'] == 'mono' else 'false'), 'viscosity: %.17g' % mu, 'KBT: %.17g' % kbt,
             'initPreSteps: %d' % pre, 'linkKappa: %.17g' % kap, 'linkGap: %.17g' % gap,
             'sylinderFixed: %s' % ('true' if f['restr'] == 'fixed' else 'false'), 'sylinderNumber: %d' % n,
             'sylinderLength: %.17g' % ln, 'sylinderLengthSigma: %.17g' % sig, 'sylinderDiameter: 0.5', 'sylinderColBuf: %.17g' % colb,
             'sylinderDiameterColRatio: %.17g' % dr, 'sylinderLengthColRatio: %.17g' % lr, 'dt: %.17g' % dt, 'timeTotal: 1000',
             'timeSnap: %.17g' % snap, 'conResTol: %.17g' % tol, 'conMaxIte: 8000', 'conSolverChoice: %d' % f['solver']]
        if f['gen']:
            y += ['initBoxLow: [%s]' % ', '.join('%.17g' % x for x in ibl), 'initBoxHigh: [%s]' % ', '.join('%.17g' % x for x in ibh),
                  'initOrient: [%s]' % ', '.join('%.17g' % x for x in orient), 'initCircularX: %s' % ('true' if circ else 'false')]
        if self.bnd:
            y.append('boundaries:')
            for b in self.bnd:
                y.append('  - type: %s' % b['kind'])
                y.append('    center: [%s]' % ', '.join(b['c']))
                if b['kind'] == 'wall':
                    y.append('    norm: [%s]' % ', '.join(nv(b['raw'])))
                elif b['kind'] == 'tube':
                    y.append('    axis: [%s]' % ', '.join(nv(b['raw'])))
                if b['kind'] != 'wall':
                    y += ['    radius: %s' % b['r'], '    inside: %s' % ('true' if b['in'] else 'false')]
        self.file('run.yaml', '\n'.join(y) + '\n')
        self.cfg = {'op': 'cfg', 'ranks': self.ranks, 'threads': self.threads, 'lo': nv(self.lo), 'hi': nv(self.hi), 'pbc': pbc,
                    'mono': int(f['restr'] == 'mono'), 'fixed': int(f['restr'] == 'fixed'), 'vtol': '1e-6', 'colBuf': n17(colb),
                    'dRatio': n17(dr), 'lRatio': n17(lr), 'bnd': [{k: b[k] for k in ('kind', 'c', 'r', 'n', 'in')} for b in self.bnd],
                    'linkGap': n17(gap), 'linkKappa': n17(kap), 'mu': n17(mu), 'kbt': n17(kbt) if kbt else 0, 'dt': n17(dt),
                    'timeSnap': n17(snap), 'resTol': n17(tol), 'init': init, 'links': links, 'gen': n if f['gen'] else 0, 'pre': pre,
                    'circ': circ, 'sigma': n17(sig), 'length': n17(ln), 'diameter': '0.5', 'ilo': nv(ibl), 'ihi': nv(ibh),
                    'iedge': nv([b - a for a, b in zip(ibl, ibh)]), 'orient': nv(orient), 'seed': self.seed}
        self.script(pbc, dt, kbt)

    def table(self, scale, what):
        r = self.rng
        g = sorted(self.gids)
        rows = []
        for x in r.sample(g, max(1, len(g) * 2 // 3)) if len(g) > 1 else g:
            if what == 'V' and x in self.imm:
                continue
            v = [r.uniform(-scale, scale) for _ in range(6)]
            if self.f['restr'] == 'mono' and what == 'V':
                v = [v[0], v[1], 0, 0, 0, v[5] * 0.2]
            if r.random() < 0.2:
                v[r.randrange(6)] = 0.0
            if what == 'V' and self.f['kick'] and r.random() < 0.1 and self.f['restr'] == 'free':
                v[r.randrange(3)] = r.choice([-1, 1]) * r.uniform(50, 400)
            rows.append('%d %s' % (x, ' '.join('%.17g' % y for y in v)))
        return '\n'.join(rows) + '\n'

    def script(self, pbc, dt, kbt):
        r, f = self.rng, self.f
        S = ['scn ' + self.d, 'init run.yaml %s' % ('init.dat' if f['gen'] == 0 else 'none.dat'), 'volume', 'draw']
        for k, o in enumerate(self.ops):
            if o['op'] in ('step', 'twice'):
                S.append('prepare')
                for again in range(2 if o['op'] == 'twice' else 1):
                    if o['f']:
                        S.append('setF ' + self.file('F%d_%d' % (k, again), self.table(3, 'F')))
                    if o['v']:
                        S.append('setV ' + self.file('V%d_%d' % (k, again), self.table(2, 'V')))
                    if o['op'] == 'twice' and again == 0:
                        S.append('prepare')
                        if r.random() < 0.6:
                            break
                S.append('run')
                if r.random() < 0.3:
                    S.append('bbox')
                if r.random() < 0.3:
                    S.append('order')
                if kbt:
                    S.append('stress')
            elif o['op'] == 'add':
                rows = []
                for i in range(o['a']):
                    rad, ln = self.body()
                    q = quat_to(unit(r))
                    rk = {0: 0, 1: self.ranks - 1, 2: int(r.random() * self.ranks)}[o['b']]
                    c = self.centre()
                    imm = 1 if f['imm'] and r.random() < 0.3 and not self.bnd else 0
                    rows.append('%d %.17g %.17g %s %s %d %d' % (rk, rad, ln, ' '.join('%.17g' % x for x in c), ' '.join('%.17g' % x for x in q),
                                                            r.choice([-1, 4]), imm))
                S.append('add ' + self.file('A%d' % k, '\n'.join(rows) + '\n'))
                # ids are given out at random among the next ones: forces may name any of them, velocities none
                m = max(self.gids) + 1 if self.gids else 0
                new = set(range(m, m + o['a']))
                self.gids |= new
                self.imm |= new
                if r.random() < 0.5:
                    S.append('bbox')
            elif o['op'] == 'link':
                g = sorted(self.gids)
                rows = []
                for i in range(o['a']):
                    p, q = r.choice(g), r.choice(g)
                    if o['b'] == 3:
                        p = g[0]
                    while q == p and len(g) > 1:
                        q = r.choice(g)
                    if p == q:
                        continue
                    if o['b'] == 2:
                        p = max(g) + 50 + i               # nobody has this id
                    rows.append('%d %d %d' % (int(r.random() * self.ranks), p, q))
                    if o['b'] == 1:
                        rows.append('%d %d %d' % (int(r.random() * self.ranks), p, q))
                        if self.cfg['links']:
                            rows.append('%d %d %d' % ((int(r.random() * self.ranks),) + tuple(r.choice(self.cfg['links']))))
                S.append('link ' + self.file('L%d' % k, '\n'.join(rows) + '\n'))
            elif o['op'] == 'restart':
                S += ['end', 'restart run.yaml TimeStepInfo.txt', 'draw', 'links']
        S += ['links', 'bbox', 'order', 'end']
        self.lines = S

    def collect(self):
        """-> path of the finished trace"""
        ev = []
        if not os.path.exists(self.d + '/trace.ndjson'):
            return None
        for l in open(self.d + '/trace.ndjson'):
            try:
                e = json.loads(l)
            except ValueError:
                break
            if e['op'] == 'restart':
                e['euler'] = 1
            elif e['op'] in ('order', 'volume', 'stress'):
                e = said(e)
            ev.append(e)
        done = bool(ev) and ev[-1]['op'] == 'end' and sum(x['op'] == 'end' for x in ev) == sum(x.split()[0] == 'end' for x in self.lines)
        ev += disk.events(self.d, self.ranks) if done else []
        with open(self.d + '/full.ndjson', 'w') as o:
            for e in [self.cfg] + ev:
                o.write(json.dumps(e) + '\n')
        self.events = ev
        return self.d + '/full.ndjson' if done else None

def said(e):
    import re
    t = e['text']
    fl = lambda s: [x.strip() for x in s.split(',')]
    if e['op'] == 'order':
        m = re.search(r'Order P,(.*?),Q,(.*)', t)
        P, Q = (fl(m.group(1)), fl(m.group(2))) if m else ([], [])
        return {'op': 'order', 'P': P if len(P) == 3 else ['nan'] * 3, 'Q': Q if len(Q) == 9 else ['nan'] * 9}
    if e['op'] == 'volume':
        a, b = re.search(r'Volume Sylinder = (\S+)', t), re.search(r'Volume fraction = (\S+)', t)
        return {'op': 'volume', 'vol': a.group(1) if a else 'nan', 'frac': b.group(1) if b else 'nan'}
    a, b = re.search(r'ColXF,(.*)', t), re.search(r'BiXF,(.*)', t)
    return {'op': 'stress', 'uni': fl(a.group(1)) if a else ['nan'] * 9, 'bis': fl(b.group(1)) if b else ['nan'] * 9, 'bl': e['bl']}

def run_all(scens, d, timeout=100):
    """runs scenarios grouped by (ranks, threads); -> list of (scenario, failure text or None)"""
    groups = {}
    for s in scens:
        groups.setdefault((s.ranks, s.threads), []).append(s)
    from concurrent.futures import ThreadPoolExecutor
    def one(item):
        (rk, th), ss = item
        f = '%s/script_%d_%d' % (d, rk, th)
        open(f, 'w').write('\n'.join(l for s in ss for l in s.lines) + '\n')
        rc, out = mpi.run('drv_sys', [f], rk, th, timeout=timeout, log=f + '.log')
        bad = []
        if rc != 0:
            for s in ss:    # find the scenario that fails, each on its own
                g = s.d + '/script'
                for x in ('trace.ndjson', 'TimeStepInfo.txt'):
                    if os.path.exists(s.d + '/' + x):
                        os.unlink(s.d + '/' + x)
                import shutil
                shutil.rmtree(s.d + '/result', ignore_errors=True)
                open(g, 'w').write('\n'.join(s.lines) + '\n')
                rc1, out1 = mpi.run('drv_sys', [g], rk, th, timeout=timeout, log=s.d + '/log')
                if rc1 != 0:
                    bad.append((s, 'the program %s: %s' % ('did not finish' if rc1 is None else 'stopped with status %d' % rc1, out1[-1500:])))
                    if rc1 is None and len(bad) > 1:
                        break
        return [(s, dict((id(a), t) for a, t in bad).get(id(s))) for s in ss]
    with ThreadPoolExecutor(2) as ex:
        return [x for g in ex.map(one, groups.items()) for x in g]
