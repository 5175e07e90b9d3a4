"""P37: integer geometry helpers of the Python module (Rect2D, Size2D, grids, label tables, digital lines)
P38: raster functions of the Python module (crack images, drawing, statistics)
P39: polygon algorithms and positions on darts through the Python interface"""
import copy, math, os, pickle, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from py_utils import *
from fractions import Fraction
G = geomap

def raises(exc, f, *a):
    try: f(*a)
    except exc: return True
    return False

# ------------------------------------------------------------------ P37
def rect(r): return (r.left(), r.top(), r.right(), r.bottom())
def empty(r): return r[2] <= r[0] or r[3] <= r[1]
def pixels(r): return {(x, y) for x in range(r[0], r[2]) for y in range(r[1], r[3])}

def check_rect(r, w, what):
    require(rect(r) == w, what, 'gives', rect(r), 'instead of', w)
    require(tuple(r.upperLeft()) == w[:2] and tuple(r.lowerRight()) == w[2:], what, 'corners', r.upperLeft(), r.lowerRight())
    require((r.width(), r.height()) == (w[2] - w[0], w[3] - w[1]) == tuple(r.size()), what, 'size', r.size())
    require(r.isEmpty() == empty(w), what, 'isEmpty', r.isEmpty())
    if not empty(w): require(r.area() == r.width() * r.height() == len(pixels(w)), what, 'area', r.area())
    q = pickle.loads(pickle.dumps(r)); require(q == r and not q != r and rect(q) == w, what, 'unpickled as', rect(q))

def rects(c):
    def gen():
        x, y = c.i(-5, 8), c.i(-5, 8)
        return (x, y, x + c.i(0, 5), y + c.i(0, 5)) if c.p(1, 4) else (x, y, x + c.i(1, 5), y + c.i(1, 5))
    a, b = gen(), gen(); c.note('rects', a, b)
    how = c.u(4)
    if how == 0: A = G.Rect2D(*a)
    elif how == 1: A = G.Rect2D((a[0], a[1]), G.Size2D(a[2] - a[0], a[3] - a[1]))
    elif how == 2: A = G.Rect2D(G.Size2D(a[2] - a[0], a[3] - a[1])); A.moveTo((a[0], a[1])) if c.p(1, 2) else A.moveTo(a[0], a[1])
    else: A = G.Rect2D(); A.setUpperLeft((a[0], a[1])); A.setLowerRight((a[2], a[3]))
    B = G.Rect2D(*b)
    check_rect(A, a, 'constructor %d' % how); check_rect(B, b, 'constructor')
    require((A == B) == (a == b) and (A != B) == (a != b), 'equality')
    pa, pb = pixels(a), pixels(b)
    for _ in range(4):
        p = (c.i(-6, 14), c.i(-6, 14))
        require(A.contains(p) == (p in pa) and (p in A) == (p in pa), 'contains', p)
        require(tuple(A[p]) == (a[0] + p[0], a[1] + p[1]), 'indexing', p, A[p])
    if not empty(a):
        require(A.contains(B) == (pb <= pa) or empty(b), 'contains rect')
        if not empty(b):
            require(A.intersects(B) == bool(pa & pb), 'intersects', A.intersects(B))
            u = (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]))
            check_rect(A | B, u, 'union'); x = G.Rect2D(*a); x |= B; check_rect(x, u, '|=')
            i = (max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3]))
            if not empty(i): check_rect(A & B, i, 'intersection')
            else: require((A & B).isEmpty(), 'intersection of disjoint rects')
            x = G.Rect2D(*a); x &= B; require(x == (A & B), '&=')
            check_rect(A, a, 'operand changed'); check_rect(B, b, 'operand changed')
        p = (c.i(-6, 14), c.i(-6, 14)); u = (min(a[0], p[0]), min(a[1], p[1]), max(a[2], p[0] + 1), max(a[3], p[1] + 1))
        check_rect(A | p, u, 'union with point')
    d = (c.i(-4, 4), c.i(-4, 4))
    x = G.Rect2D(*a); x.moveBy(d) if c.p(1, 2) else x.moveBy(*d); check_rect(x, (a[0] + d[0], a[1] + d[1], a[2] + d[0], a[3] + d[1]), 'moveBy')
    x = G.Rect2D(*a); x.moveTo(d) if c.p(1, 2) else x.moveTo(*d); check_rect(x, d + (d[0] + a[2] - a[0], d[1] + a[3] - a[1]), 'moveTo')
    s = (c.i(1, 5), c.i(1, 5))
    x = G.Rect2D(*a); x.setSize(G.Size2D(*s)) if c.p(1, 2) else x.setSize(*s); check_rect(x, (a[0], a[1], a[0] + s[0], a[1] + s[1]), 'setSize')
    x = G.Rect2D(*a); x.addSize(G.Size2D(*s)); check_rect(x, (a[0], a[1], a[2] + s[0], a[3] + s[1]), 'addSize')
    x = G.Rect2D(*a); x.addBorder(*s); check_rect(x, (a[0] - s[0], a[1] - s[1], a[2] + s[0], a[3] + s[1]), 'addBorder')
    k = c.i(1, 4); check_rect(A * k, tuple(k * v for v in a), 'scaled'); x = G.Rect2D(*a); x *= k; check_rect(x, tuple(k * v for v in a), '*=')
    got = [tuple(p) for p in G.meshIter(A)]
    require(got == [(x, y) for y in range(a[1], a[3]) for x in range(a[0], a[2])] or empty(a), 'meshIter(Rect2D)', got)
    bb = G.BoundingBox(A)
    if not empty(a):
        back = G.intPos(bb); c.note('intPos', back)
    c.nontrivial(not empty(a) and not empty(b))

def sizes(c):
    a, b = (c.i(-6, 9), c.i(-6, 9)), (c.i(-6, 9), c.i(-6, 9)); c.note('sizes', a, b)
    A = G.Size2D(*a)
    require(tuple(A) == a == (A.x, A.y) == (A.width, A.height) == (A[0], A[1]) and len(A) == 2, 'components', A)
    require(A.area() == abs(a[0] * a[1]) or A.area() == a[0] * a[1], 'area', A.area())
    require(abs(A.norm() - math.hypot(*a)) < 1e-9 and A.magnitude() == A.norm(), 'norm', A.norm())
    require(raises(IndexError, lambda: A[2]) and raises(IndexError, lambda: A[-1]), 'index range')
    require((A == G.Size2D(*b)) == (a == b) and (A != G.Size2D(*b)) == (a != b), 'equality')
    require(tuple(A + b) == (a[0] + b[0], a[1] + b[1]) and tuple(-A) == (-a[0], -a[1]), 'sum / negation', A + b, -A)
    require(tuple(A * 2.0) == tuple(2.0 * A) == (2 * a[0], 2 * a[1]) and tuple((A * 2.0) / 2.0) == a, 'scaling')
    x = G.Size2D(*a); x[0] = b[0]; x.y = b[1]; require(tuple(x) == b and tuple(A) == a, 'assignment', x)
    x = G.Size2D(*a); x.width = b[0]; x[1] = b[1]; require(tuple(x) == b, 'assignment', x)
    x = pickle.loads(pickle.dumps(A)); require(tuple(x) == a and type(x) is G.Size2D, 'unpickled as', x)
    require(repr(A) == 'Size2D(%d, %d)' % a, 'repr', repr(A))
    n, h = c.i(1, 5), c.i(1, 5)
    got = [tuple(p) for p in G.meshIter(G.Size2D(n, h))]
    require(got == [(x, y) for y in range(h) for x in range(n)], 'meshIter(Size2D)', got)
    v = (c.i(-40, 40) / 8, c.i(-40, 40) / 8)
    if all(abs(t * 2) % 2 != 1 for t in v):
        require(tuple(G.intPos(v)) == tuple(int(math.floor(t + .5)) for t in v), 'intPos', v, G.intPos(v))
    c.nontrivial(True)

def luts(c):
    n = c.u(12); l = G.LabelLUT(n); ref = list(range(n)); c.note('LabelLUT', n)
    merges = 0
    for _ in range(c.u(14)):
        k = c.u(8)
        if k == 0: l.appendOne(); ref.append(len(ref)); c.note('append')
        elif k == 1 and c.p(1, 4): n = c.u(12); l.initIdentity(n); ref = list(range(n)); c.note('init', n)
        elif k == 2:
            l, old = copy.copy(l) if c.p(1, 2) else copy.deepcopy(l), l
            if ref and len(set(ref)) > 1:
                s = sorted(set(ref)); old.relabel(s[1], s[0])
        elif len(set(ref)) > 1:
            a = c.pick(sorted(set(ref))); b = c.pick(sorted(set(ref) - {a}))
            c.note('relabel', a, b); l.relabel(a, b); ref = [b if x == a else x for x in ref]; merges += 1
        require(len(l) == len(ref) and [l[i] for i in range(len(l))] == ref, 'table', [l[i] for i in range(len(l))], ref)
        for r in set(ref): require(sorted(l.merged(r)) == [i for i, x in enumerate(ref) if x == r], 'merged', r, list(l.merged(r)))
        require(raises(IndexError, lambda: l[len(ref)]), 'index range')
        if ref: require(l[-1] == ref[-1], 'negative index')
    c.nontrivial(merges >= 2)

def closed_curve(c):
    """Freeman codes of the outer contour of a small region (4-connected)"""
    w, h = c.i(1, 7), c.i(1, 6)
    cols = []; lo, hi = 0, c.i(1, h)
    for x in range(w):
        cols.append((lo, hi)); lo = max(0, min(h - 1, lo + c.i(-1, 1), hi - 1)); hi = max(lo + 1, min(h, hi + c.i(-1, 1)))
        if lo >= cols[-1][1]: lo = cols[-1][1] - 1
        if hi <= cols[-1][0]: hi = cols[-1][0] + 1
        if hi <= lo: hi = lo + 1
    inside = {(x, y) for x, (a, b) in enumerate(cols) for y in range(a, b)}
    D = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    pos, d, codes = (0, cols[0][0]), 0, []
    start = (pos, d)
    cell = {0: lambda x, y: ((x, y - 1), (x, y)), 1: lambda x, y: ((x, y), (x - 1, y)), 2: lambda x, y: ((x - 1, y), (x - 1, y - 1)), 3: lambda x, y: ((x - 1, y - 1), (x, y - 1))}
    while True:
        codes.append(d); pos = (pos[0] + D[d][0], pos[1] + D[d][1])
        for t in (-1, 0, 1, 2):     # keep the region on the right (y down)
            e = (d + t) % 4; l, r = cell[e](*pos)
            if r in inside and l not in inside: d = e; break
        if (pos, d) == start: break
        if len(codes) > 200: raise Discard()
    return codes

def dsl(c):
    b = c.i(1, 9); a = c.i(0, b); pos = c.i(-10, 10); c.note('line', a, b, pos)
    for K, width in ((G.DigitalStraightLine8, max(a, b)), (G.DigitalStraightLine4, a + b)):
        l = K(a, b, pos)
        require((l.a, l.b, l.pos) == (a, b, pos) and l.width() == width and l.eightConnected() == (K is G.DigitalStraightLine8), 'parameters', l.a, l.b, l.pos, l.width())
        for _ in range(6):
            x, y = c.i(-12, 12), c.i(-12, 12); v = a * x - b * y
            require(l(x, y) == v and l.contains(x, y) == (0 <= v - pos < width), 'contains', (x, y), l(x, y))
        q = pickle.loads(pickle.dumps(l)); require((q.a, q.b, q.pos) == (a, b, pos) and type(q) is K, 'pickling')
        for name, t in (('mirrorX', lambda x, y: (-x, y)), ('mirrorY', lambda x, y: (x, -y)), ('mirrorXY', lambda x, y: (-x, -y))):
            m = K(a, b, pos); getattr(m, name)()
            for _ in range(6):
                x, y = c.i(-8, 8), c.i(-8, 8)
                require(m.contains(*t(x, y)) == l.contains(x, y), name, (x, y), (m.a, m.b, m.pos))
        m = K(0, 1, 0); m.a = a; m.b = b; m.pos = pos; require((m.a, m.b, m.pos) == (a, b, pos), 'setters')
    # recognition: a chain of points with steps (1, 0) and (1, 1), mostly along a digital straight line
    n = c.i(2, 18); neg = c.p(1, 2)
    ys = [(a * x + pos) // b for x in range(n + 1)]; steps = [v - u for u, v in zip(ys, ys[1:])]
    if c.p(1, 2): steps[c.u(n)] ^= 1
    r = G.DigitalStraightLine8(steps[0], 1, 0); pts = [(0, 0)]; x = y = 0
    for s in steps:
        x += 1; y += s; p = (-x, -y) if neg else (x, y); cand = pts + [p]
        possible = any(max(aa * p - bb * q for p, q in cand) - min(aa * p - bb * q for p, q in cand) < bb for bb in range(1, n + 2) for aa in range(0, bb + 1))
        old = (r.a, r.b, r.pos)
        got = r.addPoint(*p)
        require(got == possible, 'addPoint', p, 'returns', got)
        if not got:
            require((r.a, r.b, r.pos) == old, 'refused point changed the line'); c.classify('point refused', True); break
        pts = cand
        require(all(r.contains(*p) for p in pts), 'recognized line does not contain its points', pts, (r.a, r.b, r.pos))
    if r.a >= 0:
        f = r.convertToFourConnected(); require(type(f) is G.DigitalStraightLine4 and not f.eightConnected() and f.width() == r.width(), 'convertToFourConnected')
        require(all(f.contains(x - y, y) for x, y in pts), 'four-connected line')
    c.nontrivial(len(pts) > 3)

def is_dss(pts):
    w = max(x for x, y in pts) - min(x for x, y in pts) + 1
    return any(max(a * p - b * q for p, q in pts) - min(a * p - b * q for p, q in pts) < b for b in range(1, w + 1) for a in range(0, b + 1))

def tangent_oracle(codes, k):
    """largest symmetric neighbourhood of point k of the closed curve that uses two directions and is digitally straight"""
    n = len(codes); f1 = f2 = codes[k]; j = 1
    while f1 == f2:
        if j > n: return 0, []
        f, b = codes[(k + j - 1) % n], codes[(k - j) % n]
        if f != f1 and b != f1 and f != b: return 0, []
        f2 = f if f != f1 else b; j += 1
    pts = [(0, 0)]; y1 = y2 = 0; want, good = 0, []
    for j in range(1, n + 1):
        f, b = codes[(k + j - 1) % n], codes[(k - j) % n]
        if f not in (f1, f2) or b not in (f1, f2): break
        y1 += f & 1; y2 -= b & 1; pts += [(j, y1), (-j, y2)]
        if not is_dss(pts): break
        want, good = j, list(pts)
    return want, good

def tangents(c):
    codes = closed_curve(c); n = len(codes); c.note('codes', codes)
    D = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    k = c.u(n)
    l, off = G.tangentDSL(codes, k, True)
    off = off or 0
    want, good = tangent_oracle(codes, k)
    require(off == want, 'tangent extends over', off, 'steps instead of', want)
    require(all(l.contains(*p) for p in good), 'tangent does not contain', good)
    r = c.u(n); rot = codes[r:] + codes[:r]
    l2, off2 = G.tangentDSL(rot, (k - r) % n, True); off2 = off2 or 0
    require((l.a, l.b, l.pos, off) == (l2.a, l2.b, l2.pos, off2), 'tangent depends on the start of the closed curve', (l.a, l.b, l.pos, off), (l2.a, l2.b, l2.pos, off2))
    t = c.u(4); q = [(d + t) % 4 for d in codes]
    l3, off3 = G.tangentDSL(q, k, True); off3 = off3 or 0
    require(off3 == off, 'length of the tangent changes by rotation', off, off3)
    c.nontrivial(n > 6)

@prop('P37', 'two non-empty rectangles / at least two relabellings / a line with more than three points / a contour of more than six cracks')
def p37(c):
    k = c.pick([rects, sizes, luts, dsl, rects, tangents]); c.classify(k.__name__); k(c)

# ------------------------------------------------------------------ P38
def arr(a): a = numpy.asarray(a); return a.reshape(a.shape[:2])

def label_image(c):
    w, h, n = c.i(1, 7), c.i(1, 6), c.i(1, 4)
    l = numpy.zeros((w, h), numpy.int32, order=c.pick(['C', 'F']))
    k = c.u(3)
    for x in range(w):
        for y in range(h): l[x, y] = c.u(n) if k == 0 else (x + y) % n if k == 1 else 0
    if k:
        for _ in range(c.u(5)):
            x0, y0 = c.u(w), c.u(h); l[x0:x0 + c.i(1, 4), y0:y0 + c.i(1, 4)] = c.u(n)
    c.note('labels', l.T.tolist())
    return l

def regions(l, eight):
    """list of pixel sets; eight: diagonal neighbours are connected unless the two others are connected with a higher label"""
    w, h = l.shape; uf = UF([(x, y) for x in range(w) for y in range(h)])
    for x in range(w):
        for y in range(h):
            if x + 1 < w and l[x, y] == l[x + 1, y]: uf.join((x, y), (x + 1, y))
            if y + 1 < h and l[x, y] == l[x, y + 1]: uf.join((x, y), (x, y + 1))
            if eight and x + 1 < w and y + 1 < h:
                a, b, d, e = l[x, y], l[x + 1, y + 1], l[x + 1, y], l[x, y + 1]
                if a == b and a != d and (d != e or a > d): uf.join((x, y), (x + 1, y + 1))
                if d == e and d != a and (a != b or d > a): uf.join((x + 1, y), (x, y + 1))
    r = defaultdict(set)
    for p in uf.p: r[uf[p]].add(p)
    return sorted(map(sorted, r.values()))

def crack_image(c):
    l = label_image(c); w, h = l.shape; lf = l.astype(numpy.float32)
    want = numpy.zeros((w + 1, h + 1), int)
    def lab(x, y): return l[x, y] if 0 <= x < w and 0 <= y < h else None
    for x in range(w + 1):
        for y in range(h + 1):
            if x < w and lab(x, y) != lab(x, y - 1): want[x, y] |= 1; want[x + 1, y] |= 4
            if y < h and lab(x, y) != lab(x - 1, y): want[x, y] |= 2; want[x, y + 1] |= 8
    keep = lf.copy()
    got = arr(geomap.crackConnectionImage(lf))
    require(got.shape == want.shape and (got == want).all(), 'crackConnectionImage', got.T.tolist(), want.T.tolist())
    require((lf == keep).all(), 'labels changed')
    c.nontrivial(len(set(l.ravel().tolist())) > 1)

def crack_graph(c):
    l = label_image(c); eight = c.p(1, 2); keep = l.copy()
    m = geomap.crackEdgeGraph(l, eight) if not eight or c.p(1, 2) else geomap.crackEdgeGraph(l)
    require((l == keep).all(), 'labels changed')
    require(tuple(m.imageSize()) == l.shape, 'imageSize', m.imageSize())
    if not m.mapInitialized(): m.initializeMap()
    got = defaultdict(list); li = numpy.asarray(m.labelImage()).reshape(l.shape)
    want = regions(l, eight)
    for what, img in (('labelImage()', li), ('drawLabelImage', arr(geomap.drawLabelImage(m, False))), ('drawLabelImage', arr(geomap.drawLabelImage(m)) if c.p(1, 2) else arr(geomap.drawLabelImage(m, True)))):
        got = defaultdict(list)
        for x in range(l.shape[0]):
            for y in range(l.shape[1]): got[img[x, y]].append((x, y))
        require(sorted(map(sorted, got.values())) == want, what, 'of the crack edge map', img.T.tolist())
        for k, px in got.items():
            require(all(m.faceAt(p).label() == k for p in px), what, 'label', k)
    for f in m.faceIter(True): require(f.area() == f.pixelArea() == len(got[f.label()]), 'area of face', f.label())
    require(m.faceCount == len(want) + 1 and m.checkConsistency(), 'number of faces')
    c.nontrivial(len(want) > 1)

def scan_draw(c):
    g = Gen(c); m = g.build(2)
    w, h = c.i(1, 9), c.i(1, 9); order = c.pick(['C', 'F']); value = c.i(-3, 9) + .5 * c.u(2)
    img = numpy.zeros((w, h), numpy.float32, order=order)
    for x in range(w):
        for y in range(h): img[x, y] = c.u(5)
    cells = [e for e in m.edgeIter()]
    if not cells: raise Discard()
    e = c.pick(cells); sl = e.scanLines(); c.note('image', w, h, 'edge', e.label(), 'value', value)
    px = {(x, y) for y in range(sl.startIndex(), sl.endIndex()) for s in sl[y] for x in range(s.begin, s.end)}
    clip = {p for p in px if 0 <= p[0] < w and 0 <= p[1] < h}
    want = img.copy()
    for p in clip: want[p] = value
    r = geomap.drawScannedPoly(sl, img, value)
    require(r == len(clip) and (img == want).all(), 'drawScannedPoly', r, img.T.tolist(), want.T.tolist())
    if e.isLoop():
        sc = geomap.scanPoly(e if e.partialArea() > 0 else e.dart().nextAlpha() and geomap.Polygon(list(e)[::-1])); pts = [tuple(p) for p in e]
        img[...] = 1; want = img.copy()
        def inside(p):
            r = False
            for a, b in zip(pts, pts[1:]):
                if (a[1] <= p[1]) != (b[1] <= p[1]) and (cross(a, b, p) > 0) == (b[1] > a[1]): r = not r
            return r
        n = 0
        for x in range(w):
            for y in range(h):
                if (x, y) not in px and inside((x, y)): want[x, y] = value; n += 1
        r = geomap.fillScannedPoly(sc, img, value)
        require(r == n and (img == want).all(), 'fillScannedPoly', r, n, img.T.tolist(), want.T.tolist()); c.classify('filled loop', True)
    if c.p(1, 2):
        W, H = m.imageSize(); ep = set(); neg = c.u(3)
        for f in cells:
            for y in range(f.scanLines().startIndex(), f.scanLines().endIndex()): ep |= {(x, y) for s in f.scanLines()[y] for x in range(s.begin, s.end)}
        li = arr(geomap.drawLabelImage(m) if neg == 2 else geomap.drawLabelImage(m, bool(neg)) if c.p(1, 2) else geomap.drawLabelImage(m, negativeEdgeLabels=bool(neg)))
        require(li.shape == (W, H), 'drawLabelImage: size', li.shape)
        for x in range(W):
            for y in range(H):
                if (x, y) in ep and neg: require(li[x, y] == -1, 'drawLabelImage: edge pixel', (x, y), 'is', li[x, y])
                elif not any(on_segment((x, y), a, b) for f in cells for a, b in zip(*[[tuple(p) for p in f][i:] for i in (0, 1)])): require(li[x, y] == m.faceAt((x, y)).label(), 'drawLabelImage(', neg, '):', (x, y), 'is', li[x, y])
        c.classify('drawLabelImage')
    # the bookkeeping of label images: negative numbers count the edges crossing a pixel
    img[...] = 3; cnt = Counter(); live = []
    for _ in range(c.i(1, 8)):
        if live and c.p(2, 5):
            f = live.pop(c.u(len(live))); s = c.i(4, 9); c.note('remove', f.label(), s)
            freed = []
            for p in sorted(pix(f), key=lambda p: (p[1], p[0])):
                if 0 <= p[0] < w and 0 <= p[1] < h:
                    cnt[p] -= 1
                    if not cnt[p]: freed.append(p); ref[p] = s
                    else: ref[p] = -cnt[p]
            got = geomap.removeEdgeFromLabelImage(f.scanLines(), img, s)
            require([tuple(p) for p in got] == freed, 'removeEdgeFromLabelImage returns', got, freed)
        else:
            f = c.pick(cells); c.note('mark', f.label())
            if not cnt and not live: ref = {(x, y): 3 for x in range(w) for y in range(h)}
            live.append(f)
            for p in pix(f):
                if p in ref: cnt[p] += 1; ref[p] = -cnt[p]
            geomap.markEdgeInLabelImage(f.scanLines(), img)
        require(all(img[p] == v for p, v in ref.items()), 'label image', img.T.tolist())
    c.nontrivial(len(clip) > 1)

def pix(e):
    sl = e.scanLines()
    return {(x, y) for y in range(sl.startIndex(), sl.endIndex()) for s in sl[y] for x in range(s.begin, s.end)}

def gray_stats(c):
    g, m = prepared(c, labelImage=True)
    w, h = m.imageSize(); rgb = c.p(1, 3); n = 3 if rgb else 1
    img = numpy.zeros((w, h, 3) if rgb else (w, h), numpy.float32)
    for x in range(w):
        for y in range(h): img[x, y] = [c.i(-4, 20) for _ in range(3)] if rgb else c.i(-4, 20)
    c.note('image', img.T.tolist())
    S = geomap.FaceRGBStatistics if rgb else geomap.FaceGrayStatistics
    s = S(m, img, 0)
    def check(s, m):
        li = numpy.asarray(m.labelImage()).reshape(w, h); ri = numpy.asarray(s.regionImage()).reshape(w, h, n)
        other = numpy.array(arr(geomap.drawLabelImage(m, False)), numpy.float32)
        oi = numpy.asarray(s.regionImage(other)).reshape(w, h, n)
        require((ri[li < 0] == 0).all(), 'regionImage: edge pixels')
        for f in m.faceIter():
            l = f.label(); px = img.reshape(w, h, n)[li == l].astype(float)
            require(s.pixelCount(l) == len(px), 'pixelCount', l, s.pixelCount(l), len(px))
            F = s.functor(l); require(F.pixelCount() == len(px), 'functor count')
            if len(px):
                avg = px.mean(0)
                require(abs(ri[li == l] - avg).max() < 1e-3, 'regionImage of face', l, avg)
                if (other == l).any(): require(abs(oi[other == l] - avg).max() < 1e-3, 'regionImage(labels) of face', l)
                if not rgb:
                    require(abs(s.average(l) - avg[0]) < 1e-3 and s[l] == s.average(l) == F.average(), 'average', l, s.average(l), avg)
                    v = px.var(0)[0]; require(abs(s.variance(l, False) - v) < 1e-2 * (1 + v), 'variance', l, s.variance(l, False), v)
                    if len(px) > 1: v *= len(px) / (len(px) - 1.); require(abs(s.variance(l, True) - v) < 1e-2 * (1 + v) and s.variance(l, True) == F.variance(True), 'unbiased variance', l)
        for l in range(m.maxFaceLabel()):
            if m.face(l) is None:
                require(s.functor(l) is None and raises(ValueError, s.pixelCount, l) and raises(ValueError, s.average, l) and raises(ValueError, s.variance, l, False), 'removed face', l)
        for f in (s.pixelCount, s.average, s.functor): require(raises(IndexError, f, m.maxFaceLabel() + c.u(3)), 'label out of range')
        if not rgb:
            ratio = None
            for e in m.edgeIter():
                a, b = e.leftFaceLabel(), e.rightFaceLabel()
                if a != b and s.pixelCount(a) and s.pixelCount(b):
                    d, x = abs(s.average(a) - s.average(b)), s.faceMeanDiff(e.dart())
                    # (averages are float; different averages of integers differ by more than 1e-5)
                    if d <= 1e-5: require(x < 1e-5, 'faceMeanDiff', x, d)
                    else: ratio = ratio or (x / d if d > .1 else None); require(x > 0, 'faceMeanDiff', x, d)
                    if d > 1e-5 and ratio: require(abs(x - ratio * d) < ratio * (1e-3 * d + 1e-5), 'faceMeanDiff is not proportional to the difference of the means')
    check(s, m)
    merges = 0
    for _ in range(c.u(6)):
        op = choose_op(c, m); c.note(op); nf = m.faceCount; apply_op(m, op); merges += m.faceCount < nf
        check(s, m)
    how = c.u(4)
    if how == 0:
        c.note('deepcopy'); t = copy.deepcopy(s); require(t.map() is not m, 'deepcopy shares the map'); check(t, t.map())
        op = choose_op(c, m); c.note(op); apply_op(t.map(), op); check(t, t.map()); check(s, m)
        c.classify('deepcopied', True)
    elif how == 1:
        c.note('detach'); s.detachHooks(); cnt = {f.label(): s.pixelCount(f.label()) for f in m.faceIter()}
        op = choose_op(c, m); c.note(op); apply_op(m, op)
        for f in m.faceIter(): require(s.pixelCount(f.label()) == cnt[f.label()], 'detached statistics changed')
    elif how == 2:
        F = s.functor(0); a, b = F.pixelCount(), c.i(1, 4)
        if not rgb and a:
            t = F.average() * a
            for i in range(b): F(float(i)); t += i
            require(F.pixelCount() == a + b and abs(F.average() - t / (a + b)) < 1e-3, 'functor update', F.pixelCount(), F.average())
            G2 = s.functor(0); G2(F); require(G2.pixelCount() == 2 * a + b, 'functor merge')
            check(s, m)
    c.nontrivial(merges > 0)

@prop('P38', 'more than one label / region, an edge crossing more than one pixel of the image, or a face merge under attached statistics')
def p38(c):
    k = c.pick([crack_image, crack_graph, scan_draw, gray_stats, gray_stats]); c.classify(k.__name__); k(c)

# ------------------------------------------------------------------ P39
Polygon, Vector2Array = geomap.Polygon, geomap.Vector2Array
def dist(a, b): return math.hypot(a[0] - b[0], a[1] - b[1])
def line_dist(p, a, b): return dist(p, a) if a == b else abs(cross(a, b, p)) / dist(a, b)
def near(a, b, eps=1e-6): return abs(a - b) <= eps * (1 + abs(a) + abs(b))
def gen_points(c, n, r=8): return [(c.i(-r, r) / 2, c.i(-r, r) / 2) for _ in range(n)]
def simple(p, pts, what):
    """p is a Polygon (or array) with the points pts"""
    require([tuple(x) for x in p] == pts, what, list(p), pts)
    if isinstance(p, Polygon):
        require(near(p.length(), sum(dist(a, b) for a, b in zip(pts, pts[1:]))), what, 'length')
        require(near(p.partialArea(), sum(b[0] * a[1] - b[1] * a[0] for a, b in zip(pts, pts[1:])) / 2), what, 'area', p.partialArea())

def simplify(c):
    n = c.u(14)
    if c.p(1, 2): pts = gen_points(c, n)
    else: pts = [(i / 2, c.u(4) / 8) for i in range(n)]
    if n and c.p(1, 3): pts.append(pts[0])
    T = c.pick([Polygon, Vector2Array]); src = T(pts); eps = c.pick([0, .1, .25, .5, 1, 2]); step = c.pick([None, None, .75, 1.5, 4])
    c.note(T.__name__, pts, 'epsilon', eps, 'maxStep', step)
    r = geomap.simplifyPolygon(src, eps) if step is None else geomap.simplifyPolygon(src, eps, step)
    require(type(r) is T, 'type of the result', type(r)); got = [tuple(p) for p in r]; simple(r, got, 'result'); simple(src, pts, 'source')
    if len(pts) <= 2: require(got == pts, 'short polygon changed', got); return c.nontrivial(False)
    require(got[0] == pts[0] and got[-1] == pts[-1], 'end points changed', got)
    # some embedding as a subsequence such that all dropped points are close to the chords
    def ok(i, j):
        if any(line_dist(pts[k], pts[i], pts[j]) > eps + 1e-9 for k in range(i + 1, j)): return False
        return step is None or j == i + 1 or dist(pts[i], pts[j]) <= step + 1e-9
    reach = {0}
    for q in got[1:]:
        reach = {j for i in reach for j in range(i + 1, len(pts)) if pts[j] == q and ok(i, j)}
        require(reach, 'simplified polygon is not a close subsequence', got)
    require(len(pts) - 1 in reach, 'simplified polygon ends early', got)
    if eps and all(line_dist(p, pts[0], pts[-1]) < eps - 1e-9 for p in pts) and (step is None or dist(pts[0], pts[-1]) < step - 1e-9):
        require(len(got) == 2, 'straight polygon not collapsed', got); c.classify('collapsed', True)
    c.nontrivial(len(got) < len(pts))

OCT = [lambda x, y: (x, y), lambda x, y: (y, x), lambda x, y: (-x, y), lambda x, y: (y, -x), lambda x, y: (x, -y), lambda x, y: (-y, x), lambda x, y: (-x, -y), lambda x, y: (-y, -x)]
def digital(c):
    """chains of steps in one octant: every maximal digitally straight part becomes one segment"""
    n = c.i(1, 24); b = c.i(1, 9); a = c.i(0, b); o = c.u(b)
    steps = [(a * (i + 1) + o) // b - (a * i + o) // b for i in range(n)] if c.p(2, 3) else [c.u(2) for _ in range(n)]
    for _ in range(c.u(3)): steps[c.u(n)] ^= 1
    oct8 = [(0, 0)]
    for s in steps: oct8.append((oct8[-1][0] + 1, oct8[-1][1] + s))
    con = c.pick([8, 4]); t = c.pick(OCT); off = (c.i(-3, 3), c.i(-3, 3))
    pts = [t(*(p if con == 8 else (p[0] - p[1], p[1]))) for p in oct8]; pts = [(float(x + off[0]), float(y + off[1])) for x, y in pts]
    T = c.pick([Polygon, Vector2Array]); c.note(T.__name__, con, pts)
    parts, s = 0, 0
    while s < n:
        e = s + 1
        while e < n and is_dss(oct8[s:e + 2]): e += 1
        parts += 1; s = e
    src = T(pts); r = geomap.simplifyPolygonDigitalLine(src, con); got = [tuple(p) for p in r]
    require(type(r) is T, 'type of the result', type(r)); simple(src, pts, 'source')
    require(len(got) == parts + 1, 'segments', got, 'instead of', parts)
    require(got[0] == pts[0] and got[-1] == pts[-1], 'end points changed', got)
    c.classify('digitally straight', parts == 1); c.nontrivial(parts > 1)

def hull(c):
    pts = gen_points(c, c.i(3, 12), c.pick([2, 4, 8])); c.note('convexHull', pts)
    if all(cross(pts[0], a, b) == 0 for a in pts for b in pts): raise Discard()
    if c.p(1, 2): pts.append(pts[0])
    src = Polygon(pts); r = geomap.convexHull(src); got = [tuple(p) for p in r]; simple(r, got, 'hull'); simple(src, pts, 'source')
    require(got[0] == got[-1] and r.closed() and set(got) <= set(pts), 'hull is no closed polygon of input points', got)
    q = got[:-1]; s = {(v > 0) - (v < 0) for v in (cross(q[i], q[(i + 1) % len(q)], p) for i in range(len(q)) for p in pts)}
    require(s <= {0, 1} or s <= {0, -1}, 'hull is not convex or does not contain all points', got)
    # extreme points: not a convex combination of the others (2D: not in the hull of the rest)
    for p in set(pts):
        rest = [x for x in set(pts) if x != p]
        ang = sorted(math.atan2(x[1] - p[1], x[0] - p[0]) for x in rest)
        gap = max([b - a for a, b in zip(ang, ang[1:])] + [ang[0] + 2 * math.pi - ang[-1]])
        if gap > math.pi + 1e-9: require(p in q, 'extreme point', p, 'missing in the hull', got)
    require(len(q) == len(set(q)), 'hull visits a point twice', got)
    c.nontrivial(len(q) > 3)

def centre(c):
    """centroid of a simple polygon: a star-shaped one"""
    n = c.i(3, 8); k = sorted({c.u(24) for _ in range(n)})
    if len(k) < 3 or max([b - a for a, b in zip(k, k[1:])] + [k[0] + 24 - k[-1]]) >= 12: raise Discard()
    o = (c.i(-8, 8) / 2, c.i(-8, 8) / 2)
    pts = [(o[0] + r * math.cos(a * math.pi / 12), o[1] + r * math.sin(a * math.pi / 12)) for a in k for r in [c.i(2, 8) / 2]]
    if c.p(1, 2): pts = pts[::-1]
    pts.append(pts[0]); c.note('centroid', pts)
    A = sx = sy = 0
    for a, b in zip(pts, pts[1:]):
        t = a[0] * b[1] - a[1] * b[0]; A += t; sx += (a[0] + b[0]) * t; sy += (a[1] + b[1]) * t
    want = (sx / (3 * A), sy / (3 * A)); got = geomap.centroid(Polygon(pts))
    require(dist(got, want) < 1e-6, 'centroid', got, want)
    c.nontrivial(True)

def resample(c):
    pts = [(0., 0.)]
    for _ in range(c.i(1, 8)):
        d = (c.i(-4, 4) / 2, c.i(-4, 4) / 2)
        if d != (0, 0): pts.append((pts[-1][0] + d[0], pts[-1][1] + d[1]))
    if len(pts) < 2 or pts[0] == pts[-1]: raise Discard()
    step = c.pick([.3, .5, .7, 1.1, 2.3, 30]); c.note('resamplePolygonLinearInterpolation', pts, step)
    cum = [0.]
    for a, b in zip(pts, pts[1:]): cum.append(cum[-1] + dist(a, b))
    L = cum[-1]
    r = geomap.resamplePolygonLinearInterpolation(Polygon(pts), step); got = [tuple(p) for p in r]; simple(r, got, 'result')
    n = len(got) - 1
    if len(pts) == 2: require(got == pts, 'single segment', got); return
    if abs(L / step - round(L / step)) > 1e-9: require(n == math.ceil(L / step), 'number of points', n, 'for length', L)
    for i, p in enumerate(got):
        l = L * i / n; k = max(j for j in range(len(pts) - 1) if cum[j] <= l + 1e-12); t = (l - cum[k]) / (cum[k + 1] - cum[k])
        w = (pts[k][0] + t * (pts[k + 1][0] - pts[k][0]), pts[k][1] + t * (pts[k + 1][1] - pts[k][1]))
        require(dist(p, w) < 1e-6, 'point', i, 'is', p, 'instead of', w)
    c.nontrivial(n > 2)

def best_polyline(pts, n, closed):
    """least squares approximation of a polygon by n segments of equal parameter length (end points fixed)"""
    cum = [0.]
    for a, b in zip(pts, pts[1:]): cum.append(cum[-1] + dist(a, b))
    cum = [x * n / cum[-1] for x in cum]; cum[-1] = n
    knots = sorted(set(cum) | set(range(n + 1))); xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    A, B = numpy.zeros((n + 1, n + 1)), numpy.zeros((n + 1, 2))
    for u, v in zip(knots, knots[1:]):
        if v - u < 1e-12: continue
        j = min(int((u + v) / 2), n - 1)
        for x, w in ((u, (v - u) / 6), ((u + v) / 2, (v - u) * 2 / 3), (v, (v - u) / 6)):
            h = {j: 1 - (x - j), j + 1: x - j}; P = numpy.array([numpy.interp(x, cum, xs), numpy.interp(x, cum, ys)])
            for a in h:
                B[a] += w * h[a] * P
                for b in h: A[a, b] += w * h[a] * h[b]
    if closed:
        A[0] += A[n]; A[:, 0] += A[:, n]; B[0] += B[n]
        X = numpy.linalg.solve(A[:n, :n], B[:n]); return numpy.vstack([X, X[:1]])
    p0, pn = numpy.array(pts[0]), numpy.array(pts[-1])
    return numpy.vstack([p0, numpy.linalg.solve(A[1:n, 1:n], B[1:n] - numpy.outer(A[1:n, 0], p0) - numpy.outer(A[1:n, n], pn)), pn])

def smooth_resample(c):
    """resamplePolygon: number of points, end points, invariance under translation, least squares"""
    pts = gen_points(c, c.u(8))
    if len(pts) > 1 and c.p(1, 3): pts.append(pts[0])
    pts = [p for i, p in enumerate(pts) if not i or p != pts[i - 1]]
    step = c.pick([.5, .7, 1.1, 2.3, 30]); c.note('resamplePolygon', pts, step)
    r = geomap.resamplePolygon(Polygon(pts), step); got = [tuple(p) for p in r]; simple(r, got, 'result')
    if len(pts) < 2: require(got == pts, 'short polygon changed', got); return
    L = sum(dist(a, b) for a, b in zip(pts, pts[1:])); n = math.ceil(L / step); closed = pts[0] == pts[-1]
    if abs(L / step - round(L / step)) < 1e-9: raise Discard()
    if n < 2: require(len(got) == (3 if closed else 2) and got[0] == pts[0] and got[-1] == pts[-1] and set(got) <= set(pts), 'short polygon', got)
    else:
        require(len(got) == n + 1, 'number of points', len(got) - 1, 'instead of', n)
        if closed: require(dist(got[0], got[-1]) < 1e-9, 'closed polygon opened', got)
        else: require(got[0] == pts[0] and got[-1] == pts[-1], 'end points changed', got)
        w = best_polyline(pts, n, closed); big = max(abs(v) for p in pts for v in p)
        tol = 1.5 * .27**min(n, 5) * big + 1e-6 if closed else 1e-6
        require(all(dist(p, q) <= tol for p, q in zip(got, w)), 'not the best approximation', got, w.tolist())
    o = (c.i(-9, 9) / 2, c.i(-9, 9) / 2)
    t = geomap.resamplePolygon(Polygon([(x + o[0], y + o[1]) for x, y in pts]), step)
    require(len(t) == len(got) and all(dist(q, (p[0] + o[0], p[1] + o[1])) < 1e-6 for p, q in zip(got, t)) or closed, 'resampling depends on the position', got, list(t))
    c.nontrivial(n > 2)

def bspline(n, x):
    """centred B-spline of order n"""
    h = (n + 1) / 2.
    return sum((-1)**k * math.comb(n + 1, k) * max(x + h - k, 0.)**n for k in range(n + 2)) / math.factorial(n)
GAUSS = [(-math.sqrt(.6), 5 / 9.), (0., 8 / 9.), (math.sqrt(.6), 5 / 9.)]

def spline_points(c):
    """control points of the cubic spline approximation: they solve the normal equations"""
    closed = c.p(1, 2); pts = gen_points(c, c.i(3, 8))
    if closed: pts.append(pts[0])
    if c.p(1, 6) and not closed: pts = [(.5 * x, .25 * x) for x in sorted({c.u(20) for _ in range(8)})]
    if len(pts) < 4 or any(a == b for a, b in zip(pts, pts[1:])) or (pts[0] == pts[-1]) != closed: raise Discard()
    n = c.i(3, 10); c.note('polygonSplineControlPoints', pts, n)
    r = geomap.polygonSplineControlPoints(Polygon(pts), n); got = [tuple(p) for p in r]; simple(r, got, 'result')
    require(len(got) == (n + 1 if closed else n + 3), 'number of control points', len(got))
    cum = [0.]
    for a, b in zip(pts, pts[1:]): cum.append(cum[-1] + dist(a, b))
    cum = [x * n / cum[-1] for x in cum]; cum[-1] = float(n)
    # the polygon continued periodically / by point reflection
    ext = []
    for i in range(len(pts)):
        if closed: ext += [(cum[i] - n, pts[i]), (cum[i] + n, pts[i])]
        else: ext += [(-cum[i], (2 * pts[0][0] - pts[i][0], 2 * pts[0][1] - pts[i][1])), (2 * n - cum[i], (2 * pts[-1][0] - pts[i][0], 2 * pts[-1][1] - pts[i][1]))]
        ext.append((cum[i], pts[i]))
    ts, P = [], []
    for t, p in sorted(ext):
        if not ts or t - ts[-1] > 1e-12: ts.append(t); P.append(p)
    def curve(t):
        k = max(0, min(len(ts) - 2, __import__('bisect').bisect_right(ts, t) - 1)); u = (t - ts[k]) / (ts[k + 1] - ts[k])
        return (P[k][0] + u * (P[k + 1][0] - P[k][0]), P[k][1] + u * (P[k + 1][1] - P[k][1]))
    def integral(k):
        kn = sorted(set([t for t in ts if k - 2 < t < k + 2]) | {k - 2., k - 1., float(k), k + 1., k + 2.}); x = y = 0
        for a, b in zip(kn, kn[1:]):
            for g, w in GAUSS:
                t = (a + b) / 2 + g * (b - a) / 2; q = curve(t); f = w * (b - a) / 2 * bspline(3, t - k); x += f * q[0]; y += f * q[1]
        return x, y
    if closed:
        require(got[0] == got[-1], 'control points are not closed'); s = lambda k: got[k % n]; ks = range(n)
    else:
        o = got[1:-1]    # o[k] belongs to knot k
        s = lambda k: (2 * o[0][0] - o[-k][0], 2 * o[0][1] - o[-k][1]) if k < 0 else (2 * o[n][0] - o[2 * n - k][0], 2 * o[n][1] - o[2 * n - k][1]) if k > n else o[k]
        ks = range(1, n)
        require(dist(got[0], s(-1)) < 1e-9 and dist(got[-1], s(n + 1)) < 1e-9, 'outer control points')
        require(dist(o[0], pts[0]) < 1e-6 and dist(o[n], pts[-1]) < 1e-6, 'spline does not start / end at the end points', o[0], o[n])
    for k in ks:
        w = integral(k); v = [sum(bspline(7, l) * s(k + l)[d] for l in range(-3, 4)) for d in (0, 1)]
        require(dist(v, w) < 2e-4 * (1 + abs(w[0]) + abs(w[1])), 'spline is not the best approximation at knot', k, v, w)
    c.nontrivial(len(pts) > 4)

def seg_dist(q, a, b):
    d = ((b[0] - a[0])**2 + (b[1] - a[1])**2)
    t = max(0, min(1, ((q[0] - a[0]) * (b[0] - a[0]) + (q[1] - a[1]) * (b[1] - a[1])) / d))
    return dist(q, (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))

def dartpos(c):
    g, m = prepared(c)
    es = [e.label() for e in m.edgeIter()]
    if not es: raise Discard()
    d = m.dart(c.pick(es) * c.pick([1, -1])); pts = [tuple(p) for p in d]; cum = [0.]; c.note('dart', d.label(), pts)
    for a, b in zip(pts, pts[1:]): cum.append(cum[-1] + dist(a, b))
    n, L = len(pts) - 1, cum[-1]
    dp = geomap.DartPosition(d); seg, pos, end, copies = 0, 0., False, []
    def at(l):
        k = max(j for j in range(n) if cum[j] <= l or j == 0); t = (l - cum[k]) / (cum[k + 1] - cum[k])
        return (pts[k][0] + t * (pts[k + 1][0] - pts[k][0]), pts[k][1] + t * (pts[k + 1][1] - pts[k][1]))
    def check(dp, seg, pos, end):
        require(dp.dartLabel() == d.label() and dp.atEnd() == end and near(dp.arcLength(), pos), 'position', dp.dartLabel(), dp.atEnd(), dp.arcLength(), 'instead of', pos, end)
        require(dist(dp(), pts[-1] if end else at(pos)) < 1e-6, 'point', dp())
        if not end:
            require(dp.segmentIndex() == seg and tuple(dp.segmentStart()) == pts[seg] and tuple(dp.segmentEnd()) == pts[seg + 1] and near(dp.segmentLength(), cum[seg + 1] - cum[seg]), 'segment', dp.segmentIndex(), seg)
    moves = c.i(1, 9)
    for _ in range(moves):
        k = c.u(5)
        if k < 2:
            i = c.u(n); l = c.pick([cum[i] + (cum[i + 1] - cum[i]) * c.pick([.5, .25, .125]), cum[i] + (cum[i + 1] - cum[i]) * .75, 0., L + .5, -.5])
            c.note('gotoArcLength', l); r = dp.gotoArcLength(l); require(r == (0 <= l < L), 'gotoArcLength returns', r)
            end = l > L; pos = min(max(l, 0.), L)
            if not end: seg = max(j for j in range(n) if cum[j] <= pos)
        elif k == 2:
            c.note('next'); w = not end and seg < n - 1; require(dp.gotoNextSegment() == w, 'gotoNextSegment')
            if w: seg += 1; pos = cum[seg]
            else: end, pos = True, L
        elif k == 3:
            c.note('prev'); w = end or seg > 0; require(dp.gotoPrevSegment() == w, 'gotoPrevSegment')
            if end: end, seg = False, n - 1
            elif seg: seg -= 1
            pos = cum[seg]
        elif not end:
            ctr = pts[seg]; r2 = c.pick([.0625, .3, 1.1, 7.3, 100])
            j = seg
            while j < n and dist(pts[j + 1], ctr)**2 < r2: j += 1
            c.note('intersectCircle', ctr, r2); r = dp.intersectCircle(ctr, r2); require(r == (j < n), 'intersectCircle returns', r)
            if j == n: end, pos = True, L
            else:
                require(near(dist(dp(), ctr)**2, r2) and dp.segmentIndex() == j, 'intersectCircle stops at', dp(), dp.segmentIndex()); seg, pos = j, dp.arcLength()
                require(near(pos, cum[j] + dist(pts[j], dp())), 'arc length', pos)
        if c.p(1, 4): copies.append((copy.copy(dp), seg, pos, end)); c.note('copy')
        check(dp, seg, pos, end)
    for x in copies: check(*x)
    c.nontrivial(moves > 2 and n > 1)

@prop('P39', 'points dropped / several digital segments / hull of more than three points / more than two resampled points / more than two moves on several segments')
def p39(c):
    k = c.pick([simplify, digital, hull, centre, resample, smooth_resample, spline_points, dartpos]); c.classify(k.__name__); k(c)

if __name__ == '__main__': main()
