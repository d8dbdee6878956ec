"""C22: random number pools"""
import json, random
from lib import build, comp, tlc
from lib.msgcheck import join

def c22(run):
    build.build(['drv_rng'])
    r = random.Random(run.seed)
    J = []
    for ranks, th, top in ((2, 2, 4 if run.thorough() else 3), (1, 3, 5 if run.thorough() else 4), (3, 1, 3)):
        small = tlc.cases('StreamsGen', {'ranks': ranks, 'threads': th, 'max': top})
        run.model('StreamsGen%d%d' % (ranks, th), len(small), len(small), 'all draw orders: %d ranks, %d threads' % (ranks, th))
        C = []
        for k, c in enumerate(small):
            L = ['pool 1 %d %d' % (k % 5, th)]
            n = 0
            for q, o in enumerate(c):
                if o:
                    L.append('seq 1 %d %d %s' % (q, len(o), join('%d %s' % (t, 'unl'[(k + j) % 3]) for j, t in enumerate(o))))
            L.append('go 1')
            # every thread catches up: the draws together use all of the sequence
            top = max([0] + [sum(1 for t in o if t == w) for o in c for w in range(th)])
            for q, o in enumerate(c):
                more = [w for w in range(th) for _ in range(top - sum(1 for t in o if t == w))]
                r.shuffle(more)
                if more:
                    L.append('seq 1 %d %d %s' % (q, len(more), join('%d u' % t for t in more)))
            C.append(L + ['go 1', 'drop 1'])
        J.append(comp.Job(run, 'drv_rng', 'all%dx%d' % (ranks, th), ranks, th, C, chunk=250))
    for ranks, th in [(1, 1), (1, 8), (2, 3), (4, 2), (5, 1), (3, 5)]:
        C = []
        for k in range(40 if run.thorough() else 10):
            L, seeds = [], [r.randrange(2 ** 31 - 1) if r.random() < 0.5 else r.randrange(4) for _ in range(2)]
            for p in (1, 2, 3):
                L.append('pool %d %d %d' % (p, seeds[p % 2], th if p < 3 or r.random() < 0.7 else r.randint(1, 9)))
            for _ in range(8):
                p, u = r.choice((1, 2, 3)), r.random()
                if u < 0.15:
                    L.append('logn %d %g %g' % (p, r.uniform(-2, 2), r.uniform(0.1, 2)))
                elif u < 0.55:
                    n = r.randint(1, 4)
                    L += ['par %d %d %s' % (p, n, join(r.choice([0, 1, 3, 12]) for _ in range(n))), 'go %d' % p]
                elif p != 3:
                    for q in range(ranks):
                        o = [(r.randrange(th), r.choice('unl')) for _ in range(r.choice([0, 1, 9]))]
                        if o:
                            L.append('seq %d %d %d %s' % (p, q, len(o), join('%d %s' % x for x in o)))
                    L.append('go %d' % p)
                else:
                    L += ['par %d 1 5' % p, 'go %d' % p]
            C.append(L + ['drop 1', 'drop 2', 'drop 3'])
        J.append(comp.Job(run, 'drv_rng', 'random%dx%d' % (ranks, th), ranks, th, C, chunk=10))
    ok = comp.execute(run, 'Streams', J)
    def draws(e):
        return [d for b in e['by'] for d in b] if e['op'] == 'draw' else []
    def same(e):
        d = draws(e)
        if len(d) > 1 and d[0]['pos'] != d[-1]['pos']:
            d[0]['pos'] = d[-1]['pos']; return True
    def skip(e):
        for d in draws(e):
            d['pos'] = [d['pos'][0] + 1000]; return True
    def skew(e):
        for d in draws(e):
            if d['k'] == 'n':
                d['v'] = '%.17g' % (float(d['v']) * 1.01); return True
    if not run.viol:
        comp.bind(run, 'Streams', ok, [same, skip, skew])
CHECKS = {'C22': c22}
