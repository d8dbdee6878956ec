"""Reads what the program wrote to disk (vtp, pvtp, text snapshots, step info) into plain data.
An independent reader: base64 with a 4-byte length header, as the VTK XML format defines it."""
import base64, glob, os, re, struct
import xml.etree.ElementTree as ET
FMT = {'Float64': ('d', 8), 'Float32': ('f', 4), 'Int32': ('i', 4), 'UInt8': ('B', 1), 'Int64': ('q', 8)}

def num(x):
    return 'nan' if x != x else 'inf' if x == float('inf') else '-inf' if x == -float('inf') else '%.17g' % x

def vtp(path):
    """name -> (type, components, values); also the section each array is in"""
    root = ET.parse(path).getroot()
    piece = root.find('.//Piece')
    out = {'#points': int(piece.get('NumberOfPoints')), '#lines': int(piece.get('NumberOfLines'))}
    for sec in piece:
        for a in sec.findall('DataArray'):
            c, n = FMT[a.get('type')]
            txt = ''.join((a.text or '').split())
            # the header is a base64 unit of its own
            raw = base64.b64decode(txt[:8], validate=True) + base64.b64decode(txt[8:], validate=True) if a.get('format') == 'binary' else b''
            size = struct.unpack('<I', raw[:4])[0]
            if len(raw) != 4 + size:
                raise ValueError('%s: header says %d bytes, found %d' % (path, size, len(raw) - 4))
            out[a.get('Name')] = (a.get('type'), int(a.get('NumberOfComponents') or 1),
                                  list(struct.unpack('<%d%s' % (size // n, c), raw[4:])), sec.tag)
    return out

def declared(pvtp):
    root = ET.parse(pvtp).getroot()
    arrays = {}
    for sec in ('PPoints', 'PPointData', 'PCellData'):
        for s in root.iter(sec):
            for a in s:
                arrays[(sec[1:], a.get('Name'))] = (a.get('type'), int(a.get('NumberOfComponents') or 1))
    return arrays, [p.get('Source') for p in root.iter('Piece')]

def agrees(arrays, piece):
    for (sec, name), (t, n) in arrays.items():
        if sec == 'Points':
            continue
        if name not in piece or piece[name][3] != sec or piece[name][:2] != (t, n):
            return False
    have = {(v[3], k) for k, v in piece.items() if k[0] != '#' and v[3] in ('PointData', 'CellData')}
    pts = [v for k, v in arrays.items() if k[0] == 'Points']
    return have == {k for k in arrays if k[0] != 'Points'} and all(v == piece['position'][:2] for v in pts) and len(pts) == 1

def v3(a, i, n=3):
    return [num(x) for x in a[n * i:n * i + n]]

def sylinders(p):
    n = p['#lines']
    g = lambda k: p[k][2]
    out = []
    pos = g('position')
    if p['#points'] != 2 * n or len(pos) != 6 * n or g('connectivity') != list(range(2 * n)) or g('offsets') != [2 * i + 2 for i in range(n)]:
        raise ValueError('inconsistent piece')
    for k, c in (('gid', 1), ('vel', 3), ('znorm', 3), ('radius', 1)):
        if len(g(k)) != c * n:
            raise ValueError('array %s has %d values' % (k, len(g(k))))
    short = {'v': 'vel', 'w': 'omega', 'vC': 'velCollision', 'wC': 'omegaCollision', 'vB': 'velBilateral', 'wB': 'omegaBilateral',
             'vN': 'velNonBrown', 'wN': 'omegaNonBrown', 'vR': 'velBrown', 'wR': 'omegaBrown', 'f': 'force', 't': 'torque',
             'fC': 'forceCollision', 'tC': 'torqueCollision', 'fB': 'forceBilateral', 'tB': 'torqueBilateral',
             'fN': 'forceNonBrown', 'tN': 'torqueNonBrown', 'z': 'znorm', 'x': 'xnorm'}
    for i in range(n):
        r = {'id': g('gid')[i], 'grp': g('group')[i], 'imm': g('isImmovable')[i], 'r': num(g('radius')[i]), 'l': num(g('length')[i]),
             'rc': num(g('radiusCollision')[i]), 'lc': num(g('lengthCollision')[i]), 'a': v3(pos, 2 * i), 'b': v3(pos, 2 * i + 1)}
        for k, name in short.items():
            r[k] = v3(g(name), i)
        out.append(r)
    return out

def blocks(p):
    n = p['#lines']
    g = lambda k: p[k][2]
    pos = g('position')
    if p['#points'] != 2 * n or len(pos) != 6 * n or g('connectivity') != list(range(2 * n)) or g('offsets') != [2 * i + 2 for i in range(n)]:
        raise ValueError('inconsistent piece')
    return [{'i': g('gid')[2 * i], 'j': g('gid')[2 * i + 1], 'gi': g('globalIndex')[2 * i], 'gj': g('globalIndex')[2 * i + 1],
             'lI': v3(pos, 2 * i), 'lJ': v3(pos, 2 * i + 1), 'pI': v3(g('posIJ'), 2 * i), 'pJ': v3(g('posIJ'), 2 * i + 1),
             'nI': v3(g('normIJ'), 2 * i), 'nJ': v3(g('normIJ'), 2 * i + 1), 'one': g('oneSide')[i], 'bi': g('bilateral')[i],
             'd': num(g('delta0')[i]), 'g': num(g('gamma')[i]), 'k': num(g('kappa')[i]), 'st': v3(g('Stress'), i, 9)} for i in range(n)]

def text(path):
    L = open(path).read().split('\n')
    parts, links = [], []
    for l in L[2:]:
        w = l.split()
        if not w:
            continue
        if w[0] == 'L':
            links.append([int(w[1]), int(w[2])])
        else:
            parts.append({'imm': 1 if w[0] == 'S' else 0, 'id': int(w[1]), 'r': w[2], 'a': w[3:6], 'b': w[6:9], 'grp': int(w[9])})
    return L[0].split()[0], L[1].split(), parts, links

def events(scn, ranks):
    """disk events for every snapshot under scn/result"""
    out, snaps = [], []
    for d in sorted(glob.glob(scn + '/result/result*-*')):
        lo, hi = map(int, re.search(r'result(\d+)-(\d+)$', d).groups())
        for f in sorted(glob.glob(d + '/Sylinder_*.pvtp')):
            m = re.search(r'/Sylinder_(\d+)\.pvtp$', f)
            if not m:
                continue
            n = int(m.group(1))
            snaps.append(n)
            e = {'op': 'disk', 'snap': n, 'folder': [lo, hi]}
            try:
                arr, lst = declared(f)
                carr, clst = declared('%s/ConBlock_%d.pvtp' % (d, n))
                files = sorted(os.path.basename(x) for x in glob.glob('%s/Sylinder_r*_%d.vtp' % (d, n)))
                cfiles = sorted(os.path.basename(x) for x in glob.glob('%s/ConBlock_r*_%d.vtp' % (d, n)))
                P = [vtp('%s/Sylinder_r%d_%d.vtp' % (d, r, n)) for r in range(ranks)]
                C = [vtp('%s/ConBlock_r%d_%d.vtp' % (d, r, n)) for r in range(ranks)]
                cnt, tm, parts, links = text('%s/SylinderAscii_%d.dat' % (d, n))
                e.update(listed=sorted(lst), files=files, clisted=sorted(clst), cfiles=cfiles,
                         declared=1 if all(agrees(arr, p) for p in P) and all(agrees(carr, p) for p in C) else 0,
                         part=[sylinders(p) for p in P], con=[blocks(p) for p in C], ascii=parts, alinks=links,
                         count=int(cnt), time=tm[-1] if tm else 'nan')
            except Exception as x:      # unreadable output is itself a wrong snapshot
                e.update(listed=['unreadable'], files=[str(x)[:200]], clisted=[], cfiles=[], declared=0, part=[], con=[], ascii=[],
                         alinks=[], count=-1, time='nan')
            out.append(e)
    out.sort(key=lambda e: e['snap'])
    try:
        w = open(scn + '/TimeStepInfo.txt').read().split()
        info = {'seed': int(w[0]), 'step': int(w[1]), 'snap': int(w[2]), 'ok': 1 if w[3] == 'Sylinder_%s.pvtp' % w[2] and len(w) == 4 else 0}
    except Exception:
        info = {'seed': -1, 'step': -1, 'snap': -1, 'ok': 0}
    # text snapshots or pieces without an index file also count as snapshots
    extra = set()
    for f in glob.glob(scn + '/result/result*-*/*'):
        m = re.search(r'_(\d+)\.(dat|vtp|pvtp)$', f)
        if m:
            extra.add(int(m.group(1)))
    out.append({'op': 'diskall', 'all': snaps + sorted(extra - set(snaps)), 'info': info})
    return out
