"""C05, C06, C07, C25: directory, exchange, sort, distribution of points"""
import json, random
from lib import build, comp, tlc

def join(x):
    return ' '.join(str(v) for v in x)

def exchange_case(dests, kind, rng=None):
    L, v = [], 0
    for r, d in enumerate(dests):
        it = []
        for t in d:
            v += 1
            it += [t, v]
        if d:
            L.append('xmsg %d %d %s' % (r, len(d), join(it)))
    return L + ['xgo %d' % kind]

def c06(run):
    build.build(['drv_mpi'])
    r = random.Random(run.seed)
    J = []
    small = tlc.cases('ExchangeGen', {'ranks': 2, 'max': 4 if run.thorough() else 3})
    J.append(comp.Job(run, 'drv_mpi', 'all2', 2, 2, [exchange_case(d, k % 4) for k, d in enumerate(small)]))
    three = tlc.cases('ExchangeGen', {'ranks': 3, 'max': 2})
    J.append(comp.Job(run, 'drv_mpi', 'all3', 3, 1, [exchange_case(d, k % 4) for k, d in enumerate(three)]))
    run.model('ExchangeGen', len(small) + len(three), len(small) + len(three), 'all message sequences: 2 ranks, 3 ranks')
    for ranks, th in [(1, 4), (4, 2), (5, 1), (7, 1)]:
        C = []
        for k in range(400 if run.thorough() else 60):
            top = r.choice([1, 5, 40, 300])
            C.append(exchange_case([[r.choice([r.randrange(ranks), 0, ranks - 1]) for _ in range(r.choice([0, 1, top]))] for _ in range(ranks)], k % 4))
        J.append(comp.Job(run, 'drv_mpi', 'random%d' % ranks, ranks, th, C))
    ok = comp.execute(run, 'Exchange', J)
    def lose(e):
        for m in e['recv']:
            if m:
                m.pop()
                return True
    def relabel(e):
        for m in e['recv']:
            if len(e['recv']) > 1 and m:
                m[0][0] = (m[0][0] + 1) % len(e['recv'])
                return True
    def swap(e):
        for m in e['recv']:
            for k in range(len(m) - 1):
                if m[k][0] == m[k + 1][0]:
                    m[k][1], m[k + 1][1] = m[k + 1][1], m[k][1]
                    return True
    if not run.viol:
        comp.bind(run, 'Exchange', ok, [lose, relabel, swap])

def c07(run):
    build.build(['drv_mpi'])
    r = random.Random(run.seed)
    def case(t, k):
        return ['sort %d %d %s' % (k, len(t), join(x for p in zip(t, range(1, len(t) + 1)) for x in p))]
    small = tlc.cases('TagSortGen', {'tags': 3, 'max': 7 if run.thorough() else 6})
    run.model('TagSortGen', len(small), len(small), 'all tag sequences over 3 tags')
    J = [comp.Job(run, 'drv_mpi', 'all%d' % th, 1, th, [case(t, k % 4) for k, t in enumerate(small)], chunk=800) for th in (1, 4)]
    for th in (1, 3, 8):
        C = []
        for k in range(150 if run.thorough() else 40):
            n = r.choice([0, 1, 2, 17, 64, 300, 1500])
            top = r.choice([1, 2, 5, 100])
            t = [r.randint(-top, top) for _ in range(n)]
            if r.random() < 0.3:
                t.sort(reverse=r.random() < 0.5)
            C.append(case(t, k % 4))
        J.append(comp.Job(run, 'drv_mpi', 'random%d' % th, 1, th, C, chunk=40))
    ok = comp.execute(run, 'TagSort', J)
    def swap(e):
        o = e['out']
        for k in range(len(o) - 1):
            if o[k][0] == o[k + 1][0]:
                o[k], o[k + 1] = o[k + 1], o[k]
                return True
    def unpair(e):
        o = e['out']
        for k in range(len(o) - 1):
            if o[k][0] != o[k + 1][0]:
                o[k][1], o[k + 1][1] = o[k + 1][1], o[k][1]
                return True
    def lose(e):
        if e['out']:
            e['out'].pop()
            return True
    if not run.viol:
        comp.bind(run, 'TagSort', ok, [swap, unpair, lose])

def directory_case(rounds, ranks, scale=1, shift=0, est=None, stamp=1):
    L = ['dnew %d' % (100 if est is None else est)]
    for t, rd in enumerate(rounds):
        for r in range(ranks):
            mine = [x for g, o in enumerate(rd['own'], 1) if o == r for x in (g * scale + shift, stamp + 10 * t + r)]
            L.append('dpub %d %d %s' % (r, len(mine) // 2, join(mine)))
        L.append('dbuild')
        for r in range(ranks):
            a = [g * scale + shift for g in rd['ask'][r]]
            L.append('dask %d %d %s' % (r, len(a), join(a)))
        L.append('dfind')
    return L

def c05(run):
    build.build(['drv_mpi'])
    r = random.Random(run.seed)
    J, n = [], 0
    one = tlc.cases('DirectoryGen', {'ranks': 2, 'ids': 2, 'max': 2, 'rounds': 1})
    two = tlc.cases('DirectoryGen', {'ranks': 2, 'ids': 2, 'max': 1, 'rounds': 2})
    if not run.thorough():
        r.shuffle(two)
        two = two[:1500]
    run.model('DirectoryGen', len(one) + len(two), len(one) + len(two), '2 ranks, 2 ids: one round with lists up to 2, two rounds with lists up to 1')
    J.append(comp.Job(run, 'drv_mpi', 'one', 2, 1, [directory_case(c, 2) for c in one], chunk=400))
    J.append(comp.Job(run, 'drv_mpi', 'two', 2, 2, [directory_case(c, 2, 3, 1, stamp=k + 1) for k, c in enumerate(two)], chunk=400))
    for ranks, th in [(1, 2), (3, 1), (4, 2), (6, 1)]:
        C = []
        for k in range(120 if run.thorough() else 25):
            ids = r.choice([1, 5, 30, 200])
            rounds = []
            owner = [r.randrange(ranks + 1) for _ in range(ids)]
            for _ in range(r.choice([1, 3, 5])):
                if r.random() < 0.6:
                    owner = [r.randrange(ranks + 1) if r.random() < 0.5 else o for o in owner]
                if r.random() < 0.2:
                    owner = [r.choice([0, ranks - 1]) for _ in range(ids)]
                rounds.append({'own': owner, 'ask': [[r.randint(1, ids + 2) for _ in range(r.choice([0, 1, 7, 150]))] for _ in range(ranks)]})
            C.append(directory_case(rounds, ranks, r.choice([1, 1, 7, 1000]), r.choice([0, -1, 5]), est=r.choice([0, 1, 100, 5000])))
        J.append(comp.Job(run, 'drv_mpi', 'random%d' % ranks, ranks, th, C, chunk=12))
    ok = comp.execute(run, 'Directory', J)
    def stale(e):
        if e['op'] == 'find':
            for a, g in zip(e['ask'], e['got']):
                for x in g:
                    if x[2] == 1 and x[0] in a:
                        x[1] += 1
                        return True
    def cross(e):
        if e['op'] == 'find':
            for g in e['got']:
                for k in range(len(g) - 1):
                    if g[k] != g[k + 1]:
                        g[k], g[k + 1] = g[k + 1], g[k]
                        return True
    if not run.viol:
        comp.bind(run, 'Directory', ok, [stale, cross])

def c25(run):
    build.build(['drv_mpi'])
    r = random.Random(run.seed)
    J = []
    for ranks, th in [(1, 1), (2, 2), (3, 1), (4, 1), (5, 1), (7, 1)]:
        C, v = [], 0
        for dim in (1, 2, 3, 4, 6):
            for n in list(range(0, 2 * ranks + 3)) + [50, 51]:
                vals = ['%.17g' % (r.random() * 10 ** r.randint(-8, 8)) if r.random() < 0.9 else str(k) for k in range(n * dim)]
                L = ['pset 0 %d %s' % (n * dim, join(vals))] + ['pset %d 0' % q for q in range(1, ranks)]
                if r.random() < 0.3:                     # what other ranks hold beforehand is dropped
                    L += ['pset %d %d %s' % (ranks - 1, dim, join(range(dim)))] if ranks > 1 else []
                L += ['pdist %d' % dim, r.choice(['pone %d', 'pall %d']) % dim]
                if L[-1][:4] == 'pone' and r.random() < 0.5:
                    L += ['pdist %d' % dim, 'pall %d' % dim]
                C.append(L)
        for _ in range(200 if run.thorough() else 20):   # collecting what ranks hold anyway
            L = []
            for q in range(ranks):
                n = r.choice([0, 0, 3, 6, 30])
                L.append('pset %d %d %s' % (q, n, join('%.17g' % r.random() for _ in range(n))))
            C.append(L + [r.choice(['pone 3', 'pall 3'])])
        J.append(comp.Job(run, 'drv_mpi', 'r%d' % ranks, ranks, th, C, chunk=100))
    ok = comp.execute(run, 'Points', J)
    def lose(e):
        if e['op'] == 'pdist' and e['out'][-1]:
            e['out'][-1].pop()
            return True
    def swap(e):
        if e['op'] == 'pall' and len(e['out'][0]) > 1 and e['out'][0][0] != e['out'][0][1]:
            o = e['out'][0]
            o[0], o[1] = o[1], o[0]
            return True
    def dup(e):
        if e['op'] == 'pone' and e['out'][0]:
            e['out'][0].append(e['out'][0][0])
            return True
    if not run.viol:
        comp.bind(run, 'Points', ok, [lose, swap, dup])
CHECKS = {'C05': c05, 'C06': c06, 'C07': c07, 'C25': c25}
