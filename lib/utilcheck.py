"""C20, C23, C24: boundaries, binary output, periodic images and random points"""
import json, math, os, random
import xml.etree.ElementTree as ET
from lib import build, comp, disk, tlc
from lib.msgcheck import join

def r17(x):
    return '%.17g' % x

def c20(run):
    build.build(['drv_util'])
    r = random.Random(run.seed)
    def line(k, via, b, pts):
        return ['bnd %s %s %d %s %s %s %d %s' % (b['kind'], via, b['in'], r17(b['r']), join(map(r17, b['c'])), join(map(r17, b['n'])), len(pts),
                                                 join(r17(x) for p in pts for x in p))]
    small = tlc.cases('BoundaryGen', {'radii': [1, 2], 'all': 1 if run.thorough() else 0})
    grid = [-2, -1, 0, 0.5, 2] if run.thorough() else [-1, 0, 0.5, 2]
    cases, k = [], 0
    for b in small:
        b['c'] = r.choice([[0, 0, 0], [0, 0, 0], [1, -2, 0.5], [0.1, 0.7, -0.3]])
        pts = [[b['c'][0] + x, b['c'][1] + y, b['c'][2] + z] for x in grid for y in grid for z in grid]
        cases.append(line(k, ('yaml', 'direct')[k % 2], b, pts))
        k += 1
    run.model('BoundaryGen', len(small), len(small), 'every boundary with lattice normals and axes, all lattice query points')
    J = [comp.Job(run, 'drv_util', 'lattice', 1, 1, cases, chunk=8)]
    C = []
    for k in range(600 if run.thorough() else 120):
        kind = ('wall', 'tube', 'sphere')[k % 3]
        n = [r.gauss(0, 1) for _ in range(3)]
        if r.random() < 0.2:
            n = [1e-3 * x for x in n]
        b = {'kind': kind, 'in': r.randrange(2) if kind != 'wall' else 1, 'r': r.choice([0.1, 1, 7.3, 80]), 'n': n,
             'c': [r.uniform(-1, 1) * r.choice([0, 1, 50]) for _ in range(3)]}
        u = math.sqrt(sum(x * x for x in n)); u = [x / u for x in n]
        pts = []
        for _ in range(14):
            m = r.choice([0, 1e-9, 1e-3, 0.5, 1, 1.0001, 3, 40])
            d = [r.gauss(0, 1) for _ in range(3)]
            t = math.sqrt(sum(x * x for x in d)); d = [x / t for x in d]
            if kind == 'tube':
                a = r.choice([0, 1, 30]) * r.uniform(-1, 1)
                w = sum(x * y for x, y in zip(d, u)); d = [x - w * y for x, y in zip(d, u)]
                t = math.sqrt(sum(x * x for x in d)); d = [x / t for x in d]
                pts.append([c + m * b['r'] * x + a * y for c, x, y in zip(b['c'], d, u)])
            elif kind == 'wall':
                a = r.choice([0, 1, 30]) * r.uniform(-1, 1)
                w = sum(x * y for x, y in zip(d, u)); d = [x - w * y for x, y in zip(d, u)]
                pts.append([c + a * x + r.choice([-1, 1]) * m * y for c, x, y in zip(b['c'], d, u)])
            else:
                pts.append([c + m * b['r'] * x for c, x in zip(b['c'], d)])
        C.append(line(k, ('yaml', 'direct')[k // 3 % 2], b, pts))
    J.append(comp.Job(run, 'drv_util', 'random', 1, 1, C, chunk=40))
    ok = comp.execute(run, 'BoundaryMap', J, par=2)
    def off(e):
        e['p'][0] = r17(float(e['p'][0]) + 1e-6); return True
    def flip(e):
        if float(e['d'][2]) != 0:
            e['d'] = [r17(-float(x)) for x in e['d']]; return True
    def short(e):
        if abs(float(e['d'][2])) > 0.1:
            e['d'] = [r17(0.999 * float(x)) for x in e['d']]; return True
    def none(e):
        e['d'] = ['0', '0', '0']; return True
    if not run.viol:
        comp.bind(run, 'BoundaryMap', ok, [off, flip, short, none])

def c24(run):
    build.build(['drv_util'])
    r = random.Random(run.seed)
    C = []
    def edges(lo, hi):
        L = hi - lo
        out = []
        for k in (-3, -1, 0, 1, 2, 4):
            for b in (lo, hi, lo + L / 2, lo + L / 3):
                x = b + k * L
                out += [x, math.nextafter(x, 1e30), math.nextafter(x, -1e30), x + 1e-9, x - 1e-9]
        return out + [0.0, -0.0, 5e-324, -5e-324, -1e-17, 1e-17]
    boxes = [(0, 1), (-1, 1), (0, 10), (-5, 0), (0.1, 0.4), (-7.3, -1.1), (3, 1e3), (0, 1e-3), (1e4, 1e4 + 1)]
    for lo, hi in boxes:
        L = hi - lo
        xs = edges(lo, hi) + [lo + r.uniform(-1, 1) * L * 10 ** r.randint(0, 3) for _ in range(60)]
        C.append(['wrap double %s %s %d %s' % (r17(lo), r17(hi), len(xs), join(map(r17, xs)))])
        if hi < 1e4:
            fs = edges(lo, hi) + [lo + r.uniform(-1, 1) * L * 30 for _ in range(60)]
            C.append(['wrap float %s %s %d %s' % (r17(lo), r17(hi), len(fs), join(map(r17, fs)))])
        prs = [(x, t) for x in r.sample(xs, 24) for t in r.sample(xs, 12)] + \
              [(t + k * L + s * L / 2 + e, t) for t in (lo, lo + L / 4, lo + 0.7 * L) for k in (-2, 0, 3) for s in (-1, 1) for e in (0, 1e-9 * L, -1e-9 * L)]
        C.append(['near %s %s %d %s' % (r17(lo), r17(hi), len(prs), join(r17(x) for p in prs for x in p))])
    for _ in range(200 if run.thorough() else 25):
        lo = r.uniform(-1, 1) * 10 ** r.randint(-3, 3); L = r.uniform(0.1, 1) * 10 ** r.randint(-3, 3); hi = lo + L
        prs = [(lo + r.uniform(-50, 50) * L, lo + r.uniform(-50, 50) * L) for _ in range(20)]
        C.append(['near %s %s %d %s' % (r17(lo), r17(hi), len(prs), join(r17(x) for p in prs for x in p)),
                  'wrap double %s %s %d %s' % (r17(lo), r17(hi), 40, join(r17(x) for p in prs for x in p))])
    for kind in ('circle', 'sphere'):
        for rad in (1, 0.003, 250.5):
            C.append(['%s %s %d' % (kind, r17(rad), 40 if run.thorough() else 24)])
    J = [comp.Job(run, 'drv_util', 'images', 1, 1, C, chunk=9)]
    ok = comp.execute(run, 'Images', J, par=1)
    def top(e):
        if e['op'] == 'wrap' and e['t'] == 'double':
            e['y'] = e['hi']; return True
    def moved(e):
        if e['op'] == 'wrap' and e['t'] == 'double' and 0.2 < (float(e['y']) - float(e['lo'])) / (float(e['hi']) - float(e['lo'])) < 0.8:
            e['y'] = r17(float(e['y']) + 1e-6); return True
    def far(e):
        if e['op'] == 'near' and abs(float(e['y']) - float(e['u'])) > 1e-3:
            L = float(e['hi']) - float(e['lo'])
            e['y'] = r17(float(e['y']) + (L if float(e['y']) > float(e['u']) else -L)); return True
    def out(e):
        if e['op'] == 'circle':
            e['pts'][3] = [r17(float(x) * 40) for x in e['pts'][3]]; return True
    def north(e):
        if e['op'] == 'sphere':
            e['pts'] = [p[:2] + [r17(abs(float(p[2])))] for p in e['pts']]; return True
    if not run.viol:
        comp.bind(run, 'Images', ok, [top, moved, far, out, north])

def codes(s):
    return [min(ord(c), 255) for c in s]

def arrays(elem, sections):
    out = []
    for sec in elem.iter():
        if sec.tag in sections:
            for a in sec.findall('DataArray'):
                out.append({'sec': sec.tag, 'name': a.get('Name') or '', 'type': a.get('type') or '', 'comp': int(a.get('NumberOfComponents') or 1),
                            'format': a.get('format') or '', 'code': codes(''.join((a.text or '').split()))})
    return out

def index(path):
    root = ET.parse(path).getroot()
    f = [{'sec': s.tag[1:], 'name': a.get('Name'), 'type': a.get('type'), 'comp': int(a.get('NumberOfComponents') or 1)}
         for t in ('PPointData', 'PCellData') for s in root.iter(t) for a in s]
    pts = [[a.get('type'), int(a.get('NumberOfComponents') or 1)] for s in root.iter('PPoints') for a in s]
    return {'fields': f, 'points': pts, 'sources': [p.get('Source') for p in root.iter('Piece')],
            'head': [root.get('type'), root.get('byte_order'), root.get('header_type')]}

def read_files(ev):
    """adds what an independent reader (XML) finds in the files the driver wrote; unreadable files hold nothing"""
    for e in ev:
        if e['op'] == 'file':
            try:
                e['got'] = arrays(ET.parse(e['path']).getroot(), ('Piece',))
            except Exception:
                e['got'] = []
        elif e['op'] == 'index':
            try:
                x = index(e['path'])
            except Exception:
                x = {'fields': [], 'points': [], 'sources': [], 'head': []}
            e.update(got=x['fields'], points=x['points'], sources=x['sources'], head=x['head'], file='PUnstructuredGrid' if e['kind'][:3] == 'vtu' else 'PPolyData')
        elif e['op'] == 'piece':
            e['pieces'] = ['%sr%d_%s.vtp' % (e['stem'], k, e.get('post', '7')) for k in range(e['ranks'])]
            try:
                root = ET.parse(e['vtp']).getroot()
                x = index(e['pvtp'])
                pc = root.find('.//Piece')
                e['count'] = [int(pc.get('NumberOfPoints', -1)), int(pc.get('NumberOfLines', -1))]
                e.update(got=arrays(root, ('Points', 'Lines', 'PointData', 'CellData')), head=[root.get('type'), root.get('byte_order'), root.get('header_type')],
                         index=x['fields'], points=x['points'], sources=x['sources'], ihead=x['head'])
            except Exception:
                e.update(got=[], head=[], index=[], points=[], sources=[], ihead=[], count=[-1, -1])
    return ev

def c23(run):
    build.build(['drv_util', 'drv_con'])
    r = random.Random(run.seed)
    small = tlc.cases('CodecGen', {'bytes': [0, 3, 63, 129, 255], 'max': 5 if run.thorough() else 4})
    run.model('CodecGen', len(small), len(small), 'all byte sequences up to length %d over five bytes, all single bytes' % (5 if run.thorough() else 4))
    C = []
    for k, b in enumerate(small):
        C.append(['enc %d %s %d %s' % (k % 2, ('-', 'ab+=', 'x')[k // 2 % 3], len(b), join(b))])
    for k in range(200 if run.thorough() else 60):
        n = k if k < 40 else r.randint(40, 700)
        C.append(['enc %d %s %d %s' % (k % 2, r.choice(['-', 'QUI=']), n, join(r.randrange(256) for _ in range(n)))])
    vals = {'Int32': lambda: r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, r.randint(-10 ** 6, 10 ** 6)]),
            'UInt8': lambda: r.randrange(256),
            'Float32': lambda: r17(r.choice([0.0, -0.0, 1e-40, -3.4e38, r.gauss(0, 1), r.gauss(0, 1e6)])),
            'Float64': lambda: r17(r.choice([0.0, -0.0, 5e-324, 1.7e308, r.gauss(0, 1), r.gauss(0, 1e-9)]))}
    V, d = [], run.dir
    for t in vals:
        for n in list(range(0, 14)) + [50, 77]:
            V.append(['vec %s %d %s' % (t, n, join(vals[t]() for _ in range(n)))])
        for k in range(8):
            comp_, n = r.choice([1, 2, 3, 9]), r.choice([0, 1, 2, 3, 5, 17])
            V.append(['file %s/a_%s_%d.xml %s %s %d %d %s' % (d, t, k, t, r.choice(['gid', 'velCollision', 'x_1']), comp_, comp_ * n,
                                                               join(vals[t]() for _ in range(comp_ * n)))])
    names = ['gid', 'vel', 'x', 'Stress', 'label_2', 'q']
    for k in range(40):
        kind = ('vtu1', 'vtu2', 'vtp1', 'vtp2')[k % 4]
        f = lambda n: join('%d %s %s' % (r.choice([1, 3, 9]), r.choice(list(vals)), x) for x in r.sample(names, n))
        a, b = r.choice([0, 1, 2, 5]), r.choice([0, 1, 3]) if kind[3] == '2' else 0
        n = r.choice([0, 1, 2, 12])
        V.append(['index %s/i_%d.xml %s %d %s %d %s %d %s' % (d, k, kind, a, f(a), b, f(b), n, join('piece_r%d_%d.vtp' % (q, k) for q in range(n)))])
    for k, n in enumerate([0, 1, 2, 3, 7] if not run.thorough() else list(range(12))):
        os.makedirs('%s/syl%d' % (d, k), exist_ok=True)
        V.append(['syl %s/syl%d %d %d %d' % (d, k, n, r.randrange(10 ** 6), r.choice([1, 2, 11]))])
    J = [comp.Job(run, 'drv_util', 'codec', 1, 1, C, chunk=500, post=read_files), comp.Job(run, 'drv_util', 'files', 1, 2, V, chunk=50, post=read_files)]
    # constraint blocks, written by each rank
    from lib.concheck import con, block
    for ranks, th in [(1, 1), (1, 3), (3, 1), (2, 2)]:
        K = []
        for k in range(30 if run.thorough() else 6):
            n, B = [r.choice([1, 2, 4]) for _ in range(ranks)], []
            ques = [r.choice([1, 2, 5]) for _ in range(ranks)]
            for _ in range(r.choice([0, 1, 2, 9, 30])):
                q = r.randrange(ranks)
                I, one = r.randrange(sum(n)), int(r.random() < 0.3)
                B.append(block(r, q, r.randrange(ques[q]), I, I if one else r.randrange(sum(n)), one, 0 if one else r.choice([0, 1, 2])))
            w = '%s/con%dx%d_%d' % (d, ranks, th, k)
            os.makedirs(w, exist_ok=True)
            K.append([con(n, ques, B), 'write %s %s %s' % (w, r.choice(['-', 'pre_']), r.choice(['0', '12']))])
        J.append(comp.Job(run, 'drv_con', 'blocks%dx%d' % (ranks, th), ranks, th, K, chunk=100, post=lambda ev: read_files([e for e in ev if e['op'] == 'piece'])))
    ok = comp.execute(run, 'Codec', J, par=3)
    def flip(e):
        if e['op'] == 'enc' and len(e['bytes']) > 2:
            e['bytes'][1] ^= 1; return True
    def pad(e):
        if e['op'] == 'enc' and not e['mark'] and len(e['bytes']) % 3 == 1:
            e['out'][-1] = 65; return True
    def header(e):
        if e['op'] == 'vec' and len(e['bytes']) > 3:
            e['bytes'].append(0); return True
    def declare(e):
        if e['op'] == 'piece':
            e['index'][-1]['comp'] = 1; return True
    def drop(e):
        if e['op'] == 'index' and e['got']:
            e['got'].pop(); return True
    if not run.viol:
        comp.bind(run, 'Codec', ok, [flip, pad, header, declare, drop])
CHECKS = {'C20': c20, 'C23': c23, 'C24': c24}
