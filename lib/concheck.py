"""C12, C13: constraint assembly and the constraint solve"""
import random
from lib import build, comp, tlc
from lib.msgcheck import join

def r17(x):
    return '%.17g' % x

def unit(r):
    v = [r.gauss(0, 1) for _ in range(3)]
    s = sum(x * x for x in v) ** 0.5
    return [x / s for x in v]

def block(r, rank, que, I, J, one, kind, opposite=True):
    """kind 0 unilateral, 1 rigid bilateral, 2 spring"""
    n = unit(r)
    m = [-x for x in n] if opposite else unit(r)
    num = lambda k, s=1: [r.gauss(0, s) for _ in range(k)]
    f = [r.choice([0, 0.5, 30]) * r.random() if kind == 2 else (r.choice([0, 0, 7]) if kind == 0 else 0), r.gauss(0, 0.3), r.choice([0, r.random()])]
    if kind == 2:
        f[0] += 0.1
    return '%d %d %d %d %d %d %s' % (rank, que, I, J, one, 1 if kind else 0, join(map(r17, f + n + m + num(3, r.choice([0, 1, 5])) + num(3) + num(9) + num(3) + num(3))))

def con(n, ques, blocks):
    return 'con %d %s %s %d %s' % (len(n), join(n), join(ques), len(blocks), join(blocks))

def gs(r, n, s=1):
    return join(r17(r.gauss(0, s)) for _ in range(n))

def mob(r, n):
    return join(r17(r.choice([1, 0.3, 2.5]) * r.uniform(0.3, 1)) for _ in range(6 * n))

def c12(run):
    build.build(['drv_con'])
    r = random.Random(run.seed)
    small = tlc.cases('ConGen', {'max': 2})
    run.model('ConGen', len(small), len(small), 'up to two constraints between two bodies on two ranks, two queues each')
    if not run.thorough():
        r.shuffle(small)
        small = small[:1300]
    C = []
    for k, c in enumerate(small):
        B = [block(r, b['rank'], b['que'], b['pair'][0], b['pair'][1], b['one'], b['kind'], r.random() < 0.7) for b in c['b']]
        m = len(B)
        C.append([con(c['n'], [2, 2], B), 'build', 'trans ' + gs(r, 12), 'force ' + gs(r, m),
                  'oper %s %s %s %s %s' % (*([('1', '0'), ('-0.5', '2'), ('2', '0'), ('1', '1')][k % 4]), mob(r, 2), gs(r, m), gs(r, m)),
                  'stress %d' % (k % 2), 'back ' + gs(r, m), 'stress %d' % (k // 2 % 2)])
    J = [comp.Job(run, 'drv_con', 'all', 2, 2, C, chunk=350)]
    for ranks, th in [(1, 1), (1, 4), (2, 2), (3, 1), (4, 2), (5, 1)]:
        C = []
        for _ in range(60 if run.thorough() else 10):
            n = [r.choice([0, 1, 2, 5]) for _ in range(ranks)]
            if not sum(n):
                n[r.randrange(ranks)] = 2
            N, ques = sum(n), [r.choice([1, 1, 2, 4, 7]) for _ in range(ranks)]
            m, B, rows = r.choice([0, 1, 3, 12, 40]), [], []
            for k in range(m):
                q = r.choice([0, ranks - 1, r.randrange(ranks)])
                I = r.randrange(N); K = r.randrange(N) if r.random() < 0.9 else I
                one = int(r.random() < 0.25)
                if one and r.random() < 0.5:
                    K = 2 ** 30        # boundaries have no body J
                B.append(block(r, q, r.randrange(ques[q]), I, K, one, r.choice([0, 0, 1, 2]), r.random() < 0.8))
            L = [con(n, ques, B), 'build', 'force ' + gs(r, m), 'trans ' + gs(r, 6 * N),
                 'oper 1 0 %s %s %s' % (mob(r, N), gs(r, m), gs(r, m)), 'oper %s %s %s %s %s' % (r17(r.gauss(0, 1)), r17(r.gauss(0, 1)), mob(r, N), gs(r, m), gs(r, m)),
                 'stress 0', 'stress 1', 'back ' + gs(r, m), 'stress %d' % r.randrange(2), 'build', 'trans ' + gs(r, 6 * N)]
            C.append(L)
        J.append(comp.Job(run, 'drv_con', 'random%dx%d' % (ranks, th), ranks, th, C, chunk=20))
    ok = comp.execute(run, 'Constraints', J)
    def arm(e):
        if e['op'] == 'force':
            for q in e['out']:
                for k in range(len(q)):
                    if k % 6 > 2 and abs(float(q[k])) > 1e-3:
                        q[k] = r17(-float(q[k])); return True
    def order(e):
        if e['op'] == 'build':
            for q in e['g']:
                if len(q) > 1 and q[0] != q[1]:
                    q[0], q[1] = q[1], q[0]; return True
    def spring(e):
        if e['op'] == 'build':
            for q in e['ik']:
                for k in range(len(q)):
                    if float(q[k]) > 0:
                        q[k] = '0'; return True
    def rel(e):
        if e['op'] == 'trans':
            for q in e['out']:
                if q:
                    q[-1] = r17(float(q[-1]) + 1e-6); return True
    def stress(e):
        if e['op'] == 'back':
            for b in (b for q in e['res'] for u in q for b in u):
                b['s'] = [r17(float(x) * 1.01) for x in b['s']]; return True
    if not run.viol:
        comp.bind(run, 'Constraints', ok, [arm, order, spring, rel, stress])

def qp(r, method, tol, maxi, n, A, b, lb, ub, x0):
    return ['qp %d %s %d %d %s %s' % (method, r17(tol), maxi, len(n), join(n), join(x if isinstance(x, str) else r17(x) for x in sum(A, []) + b + lb + ub + x0))]

def split(r, N, ranks):
    n = [0] * ranks
    for _ in range(N):
        n[r.choice([0, ranks - 1, r.randrange(ranks)])] += 1
    return n

def c13(run):
    build.build(['drv_con'])
    r = random.Random(run.seed)
    small = tlc.cases('QPGen', {})
    run.model('QPGen', len(small), len(small), 'all quadratic problems of up to two unknowns, small integer coefficients, four kinds of bounds, three starts, two methods')
    if not run.thorough():
        r.shuffle(small)
        small = small[:3000]
    BD = [(0, 1), (-1, 2), (0, 'inf'), ('-inf', 'inf')]
    C = []
    for c in small:
        a, N = c['a'], len(c['b'])
        A = [[a[0]]] if N == 1 else [[a[0], a[1]], [a[1], a[2]]]
        C.append(qp(r, c['m'], r.choice([1e-3, 1e-8]), 3000, split(r, N, 2), A, c['b'], [BD[k - 1][0] for k in c['bd']], [BD[k - 1][1] for k in c['bd']], c['s']))
    S = []
    J = [comp.Job(run, 'drv_con', 'all', 2, 1, C, chunk=1000)]
    for ranks, th in [(1, 1), (1, 3), (2, 2), (3, 1), (4, 1), (5, 1)]:
        C = []
        for k in range(400 if run.thorough() else 60):
            N = r.choice([0, 1, 2, 3, 5, 8, 20])
            kind = r.choice(['easy', 'easy', 'spd', 'low', 'zero'])
            if kind == 'easy':
                A = [[0.0] * N for _ in range(N)]
                for i in range(N):
                    for j in range(i):
                        A[i][j] = A[j][i] = r.gauss(0, 1) if r.random() < 0.6 else 0
                top = max([sum(map(abs, row)) for row in A] + [1e-9])
                s = r.uniform(0.3, 1) / top
                A = [[x * s for x in row] for row in A]
                for i in range(N):
                    A[i][i] = max(0.3, 2.001 * sum(map(abs, A[i]))) * r.uniform(1, 1.3)
            else:
                m = N if kind == 'spd' else max(1, N // 2) if kind == 'low' else 0
                G = [[r.gauss(0, 1) for _ in range(N)] for _ in range(m)]
                d = [10 ** r.uniform(-1, 1) for _ in range(m)]
                A = [[sum(d[k] * G[k][i] * G[k][j] for k in range(m)) for j in range(N)] for i in range(N)]
            b = [r.gauss(0, 1) * r.choice([1, 1, 30]) for _ in range(N)]
            lb, ub = [], []
            for i in range(N):
                t = r.random()
                if kind in ('low', 'zero') or t < 0.3:
                    u, v = sorted([r.gauss(0, 1), r.gauss(0, 1)])
                    if r.random() < 0.1:
                        v = u
                elif t < 0.6:
                    u, v = 0, 'inf'
                elif t < 0.75:
                    u, v = -1e8, 'inf'
                elif t < 0.85:
                    u, v = '-inf', r.gauss(0, 1)
                else:
                    u, v = '-inf', 'inf'
                lb.append(u); ub.append(v)
            t = r.random()
            x0 = [0] * N if t < 0.4 else [1] * N if t < 0.6 else [r.gauss(0, 1) * 10 for _ in range(N)]
            C.append(qp(r, r.randrange(2), 10 ** r.uniform(-9, -2), r.choice([0, 1, 2, 5, 30]) if r.random() < 0.25 else 5000, split(r, N, ranks), A, b, lb, ub, x0))
        J.append(comp.Job(run, 'drv_con', 'random%dx%d' % (ranks, th), ranks, th, C, chunk=100))
        # steps of constrained dynamics
        C = []
        for k in range(30 if run.thorough() else 6):
            n = [r.choice([0, 1, 3]) for _ in range(ranks)]
            n[r.randrange(ranks)] += 1
            N, ques, m = sum(n), [r.choice([1, 3]) for _ in range(ranks)], r.choice([0, 1, 2, 5, 12])
            B = []
            for _ in range(m):
                q = r.randrange(ranks)
                B.append(block(r, q, r.randrange(ques[q]), r.randrange(N), r.randrange(N), int(r.random() < 0.2), r.choice([0, 0, 2, 2] + ([1] if m < 6 else []))))
            C.append([con(n, ques, B), 'build', 'solve %d %s 200000 %s %s %s' % (r.randrange(2), r17(10 ** r.uniform(-7, -3)), r17(r.choice([1, 0.1, 0.02])), mob(r, N), gs(r, 6 * N))])
        S.append(comp.Job(run, 'drv_con', 'step%dx%d' % (ranks, th), ranks, th, C, chunk=40))
    ok = comp.execute(run, 'QP', J)
    comp.execute(run, 'Constraints', S)
    def outside(e):
        for q in e['x']:
            if q and e['lb'][0] != '-inf':
                q[0] = r17(float(e['lb'][0]) - 1e-12); return True
    def off(e):
        if e['ret'][0] == 0 and e['len'][0] > 5 and len(e['b']) > 1 and e['lb'] == ['-inf'] * len(e['b']) and e['ub'] == ['inf'] * len(e['b']):
            for q in e['x']:
                if q:
                    q[0] = r17(float(q[0]) + 0.1); return True
    def nan(e):
        for q in e['x']:
            if q:
                q[0] = 'nan'; return True
    def limit(e):
        if e['len'][0] > 3:
            e['max'] = e['len'][0] - 2; return True
    if not run.viol:
        comp.bind(run, 'QP', ok, [outside, off, nan, limit])
CHECKS = {'C12': c12, 'C13': c13}

def c26(run):
    build.build(['drv_lcp'])
    r = random.Random(run.seed)
    small = tlc.cases('LCPGen', {})
    run.model('LCPGen', len(small), len(small), 'all complementarity problems of up to two unknowns with small integer coefficients, four starts')
    if not run.thorough():
        r.shuffle(small)
        small = small[:900]
    def line(kind, tol, maxi, n, nums):
        return ['%s %s %d %d %s %s' % (kind, r17(tol), maxi, len(n), join(n), join(r17(x) for x in nums))]
    C = []
    for c in small:
        a, N = c['a'], len(c['b'])
        A = [] if N == 0 else [a[0]] if N == 1 else [a[0], a[1], a[1], a[2]]
        C.append(line('lcp', r.choice([1e-3, 1e-6]), 1000, split(r, N, 2), A + c['b'] + c['s']))
    J = [comp.Job(run, 'drv_lcp', 'all', 2, 1, C, chunk=1000, timeout=60)]
    for ranks, th in [(1, 1), (1, 3), (2, 2), (3, 1), (5, 1)]:
        C = []
        for k in range(150 if run.thorough() else 30):
            N = r.choice([1, 2, 3, 5, 8, 20])
            b = [r.gauss(0, 1) * r.choice([1, 1, 3]) for _ in range(N)]
            t = r.random()
            x0 = [0] * N if t < 0.3 else [1] * N if t < 0.5 else [r.gauss(0, 1) * 3 for _ in range(N)] if t < 0.8 else [abs(r.gauss(0, 1)) for _ in range(N)]
            tol, maxi = 10 ** r.uniform(-7, -2), r.choice([1, 2, 5, 30]) if r.random() < 0.2 else 2000
            if r.random() < 0.3:
                P = 6 * r.choice([2, 4, 7])
                G = [[r.gauss(0, 1) if r.random() < 0.5 else 0 for _ in range(P)] for _ in range(min(N, P // 2))]
                N = len(G); b, x0 = b[:N], x0[:N]
                C.append(['con %s %d %d %s %s %s' % (r17(tol), maxi, ranks, join(split(r, N, ranks)), join(split(r, P, ranks)),
                                                     join(r17(x) for x in sum(G, []) + [r.uniform(0.3, 2) for _ in range(P)] + b + x0))])
                continue
            A = [[0.0] * N for _ in range(N)]
            for i in range(N):
                for j in range(i):
                    A[i][j] = A[j][i] = r.gauss(0, 1) if r.random() < 0.6 else 0
            s = r.uniform(0.3, 1) / max([sum(map(abs, row)) for row in A] + [1e-9])
            A = [[x * s for x in row] for row in A]
            for i in range(N):
                A[i][i] = max(0.3, r.choice([1.6, 2.001]) * sum(map(abs, A[i]))) * r.uniform(1, 1.3)
            C.append(line('lcp', tol, maxi, split(r, N, ranks), sum(A, []) + b + x0))
        J.append(comp.Job(run, 'drv_lcp', 'random%dx%d' % (ranks, th), ranks, th, C, chunk=100, timeout=60))
    ok = comp.execute(run, 'LCP', J)
    def neg(e):
        for q in e['sols'][1]['x']:
            for k in range(len(q)):
                if float(q[k]) == 0:
                    q[k] = '-1e-13'; return True
    def off(e):
        s = e['sols'][0]
        if s['ret'][0] == 0 and 1 < s['len'][0] < e['max']:
            for q in s['x']:
                if q and float(q[0]) > 0.01:
                    q[0] = r17(float(q[0]) + 0.1); return True
    def code(e):
        if e['max'] == 1000 and e['op'] == 'lcp' and len(e['b']) == 1:
            e['sols'][2]['len'] = [1000] * len(e['n']); return True
    if not run.viol:
        comp.bind(run, 'LCP', ok, [neg, off, code])
CHECKS['C26'] = c26
