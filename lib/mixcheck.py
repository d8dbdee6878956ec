"""C21: interaction of targets with sources in range"""
import json, random
from lib import build, comp, tlc
from lib.msgcheck import join

def r17(x):
    return '%.17g' % x

def c21(run):
    build.build(['drv_mix'])
    r = random.Random(run.seed)
    J = []
    places = [0.05, 0.5, 0.93]
    for ranks, top in ((2, 2), (3, 1)):
        small = tlc.cases('MixGen', {'ranks': ranks, 'places': len(places), 'max': top})
        run.model('MixGen%d' % ranks, len(small), len(small), 'one target, up to %d sources, each on any of %d ranks' % (top, ranks))
        if not run.thorough():
            r.shuffle(small)
            small = small[:1200 // ranks]
        C = []
        for k, c in enumerate(small):
            ax = k % 3
            def pt(p, g):
                x = [0.5, 0.4, 0.6]
                x[ax] = places[p['at'] - 1]
                return '%d %s %s' % (g, r17([0.22, 0.61][p['r'] - 1]), join(map(r17, x)))
            L = ['box %s 0 0 0 1 1 1' % ''.join('1' if a == ax and c['per'] else '0' for a in range(3))]
            L.append('trg %d 1 %s' % (c['trg']['rank'], pt(c['trg'], 5)))
            for q in range(ranks):
                o = [pt(p, 10 + j) for j, p in enumerate(c['src']) if p['rank'] == q]
                if o:
                    L.append('src %d %d %s' % (q, len(o), join(o)))
            C.append(L + ['part', 'go'])
        J.append(comp.Job(run, 'drv_mix', 'all%d' % ranks, ranks, 2, C, chunk=600))
    for ranks, th in [(1, 1), (1, 4), (2, 3), (3, 2), (4, 1), (6, 1)]:
        C = []
        for k in range(40 if run.thorough() else 6):
            bc = ''.join(r.choice('01') for _ in range(3)) if r.random() < 0.7 else '111'
            lo = [r.choice([0, -1, 3]) * r.uniform(0, 2) for _ in range(3)]
            S = r.choice([0.01, 1, 1, 30])
            lo = [S * a for a in lo]
            L0 = [S * r.choice([1, 1, r.uniform(1, 2)]) for _ in range(3)]
            hi = [a + b for a, b in zip(lo, L0)]
            L = ['box %s %s %s' % (bc, join(map(r17, lo)), join(map(r17, hi)))]
            n = {'trg': r.choice([0, 1, 5, 20]), 'src': r.choice([0, 1, 5, 20, 40])}
            big = r.choice([0.1, 0.25, 0.4]) if sum(n.values()) > 10 else r.choice([0.3, 0.8, 1.3])
            def give(kind):
                own = {q: [] for q in range(ranks)}
                ids = r.sample(range(1000), n[kind])
                for g in ids:
                    u, x = r.random(), [a + b * r.random() for a, b in zip(lo, L0)]
                    if u < 0.15:
                        x[r.randrange(3)] = lo[0]
                        x = [min(max(v, a), a + b * 0.999) for v, a, b in zip(x, lo, L0)]
                    elif u < 0.3:
                        # outside the box
                        x = [v + (r.choice([-1, 0, 1]) * b if p == '1' else 0) for v, b, p in zip(x, L0, bc)]
                    q = r.choice([0, ranks - 1, r.randrange(ranks)])
                    own[q].append('%d %s %s' % (g, r17(S * big * r.uniform(0.1, 1) * (0.3 if r.random() < 0.5 else 1)), join(map(r17, x))))
                for q in range(ranks):
                    L.append('%s %d %d %s' % (kind, q, len(own[q]), join(own[q])))
            give('trg'); give('src')
            L.append('part')
            L.append('go')
            for _ in range(r.choice([1, 3, 6])):
                u = r.random()
                if u < 0.25:
                    L.append('move %d' % r.randrange(10 ** 6))
                    # FDPS needs every particle on the rank that owns its place
                    if ranks > 1 or r.random() < 0.7:
                        L.append('part')
                elif u < 0.45:
                    w = r.choice(['trg', 'src'])
                    n[w] = r.choice([0, 1, n[w] // 2, n[w] + 1, min(40, 2 * n[w] + 3)])
                    give(w)
                    L.append('part')
                elif u < 0.6:
                    L.append('swap')
                elif u < 0.75:
                    L += ['move 3', 'again', 'part']
                L.append('again' if r.random() < 0.15 else 'go')
            C.append(L)
        J.append(comp.Job(run, 'drv_mix', 'random%dx%d' % (ranks, th), ranks, th, C, chunk=10))
    ok = comp.execute(run, 'MixPair', J)
    def F(e):
        return [f for q in e['res'] for f in q] if e['op'] == 'force' else []
    def lose(e):
        for f in F(e):
            if f['n']:
                f['v'].pop(); f['n'] -= 1; return True
    def twice(e):
        for f in F(e):
            if f['n']:
                f['v'].append(f['v'][0]); f['n'] += 1; return True
    def order(e):
        for q in (e['res'] if e['op'] == 'force' else []):
            if len(q) > 1:
                q[0], q[1] = q[1], q[0]; return True
    def image(e):
        for f in F(e):
            if f['n']:
                f['v'][0]['d'][0] = r17(float(f['v'][0]['d'][0]) + 1e-3); return True
    if not run.viol:
        comp.bind(run, 'MixPair', ok, [lose, twice, order, image])
CHECKS = {'C21': c21}
