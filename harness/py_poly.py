"""P29, P33, P28: polygons, tangents and statistics through the Python interface"""
import copy, math, os, pickle, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pygen import *
Polygon, Vector2Array, BoundingBox = geomap.Polygon, geomap.Vector2Array, geomap.BoundingBox

def fails(exc, f):
    try: f()
    except exc: return True
    except Exception as e: raise Violation('%s instead of %s' % (e, exc))
    return False

def point(c, r=6): return (c.i(-r, r) / 2, c.i(-r, r) / 2)
def points(c, n): return [point(c) for _ in range(n)]
def dist(a, b): return math.hypot(a[0] - b[0], a[1] - b[1])
def near(a, b, eps=1e-9): return abs(a - b) <= eps * (1 + abs(a) + abs(b))

# ---------------------------------------------------------------------------------------------------- P29

def check_poly(c, p, ref, full=True):
    require(len(p) == len(ref) and [tuple(x) for x in p] == ref, 'points', list(p), ref)
    if full:
        n = len(ref)
        require([tuple(p[i]) for i in range(n)] == ref and [tuple(p[i - n]) for i in range(n)] == ref, 'indexing')
        for i in (n, n + 1, -n - 1, -n - 2): require(fails(IndexError, lambda: p[i]), 'index', i, 'accepted')
    if isinstance(p, Polygon) and full and c.p(2, 3):
        ln = sum(dist(a, b) for a, b in zip(ref, ref[1:]))
        ar = sum(b[0] * a[1] - b[1] * a[0] for a, b in zip(ref, ref[1:])) / 2
        k = c.u(8)
        if k & 1 or k == 0: require(near(p.length(), ln), 'length', p.length(), ln)
        if k & 2 or k == 0: require(near(p.partialArea(), ar), 'partial area', p.partialArea(), ar)
        if k & 4 or k == 0:
            b = p.boundingBox()
            if ref:
                require(tuple(b.begin()) == (min(x for x, y in ref), min(y for x, y in ref)), 'bounding box begin', b)
                require(tuple(b.end()) == (max(x for x, y in ref), max(y for x, y in ref)), 'bounding box end', b)
            else: require(b.isEmpty(), 'bounding box', b)
        require(p.closed() == bool(ref and ref[0] == ref[-1]), 'closed')
        al = p.arcLengthList()
        want = [0.0]
        for a, b in zip(ref, ref[1:]): want.append(want[-1] + dist(a, b))
        require(len(al) == len(want) and all(near(x, y) for x, y in zip(al, want)), 'arc lengths', al, want)
        require(str(len(ref)) in repr(p) and ('closed' in repr(p)) == p.closed(), 'repr', repr(p))

def on_segment_dist(q, a, b):
    d = ((b[0] - a[0])**2 + (b[1] - a[1])**2)
    t = 0 if d == 0 else max(0, min(1, ((q[0] - a[0]) * (b[0] - a[0]) + (q[1] - a[1]) * (b[1] - a[1])) / d))
    return dist(q, (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))

def list_ops(c):
    ref = points(c, c.u(6))
    kind = c.pick([Polygon, Polygon, Polygon, Vector2Array])
    c.note(kind.__name__, ref)
    p = kind(ref) if c.p(2, 3) else kind(Vector2Array(ref))
    poly = kind is Polygon
    check_poly(c, p, ref)
    others = []
    for _ in range(1 + c.u(8)):
        n = len(ref)
        op = c.u(15)
        if op == 0 and poly:
            x = point(c); c.note('append', x); p.append(x); ref.append(x)
        elif op == 1:
            i, x = c.u(n + 3), point(c); c.note('insert', i, x)
            if i <= n: p.insert(i, x); ref.insert(i, x)
            else: require(fails(IndexError, lambda: p.insert(i, x)), 'insert beyond the end accepted')
        elif op == 2 and poly:
            i = c.i(-n - 2, n + 2); c.note('del', i)
            def f(): del p[i]
            if -n <= i < n: f(); del ref[i]
            else: require(fails(IndexError, f), 'deleting non-existing element', i, 'of', n, 'accepted')
        elif op == 3:
            i, x = c.i(-n - 2, n + 2), point(c); c.note('set', i, x)
            def f(): p[i] = x
            if -n <= i < n: f(); ref[i] = x
            else: require(fails(IndexError, f), 'setting non-existing element accepted')
        elif op == 4 and poly:
            o = points(c, c.u(4))
            if ref and o and c.p(1, 2): o[0] = ref[-1]
            c.note('extend', o)
            q = Polygon(o)
            if c.p(1, 2): q.length(); q.partialArea(); q.boundingBox()
            p.extend(q if c.p(2, 3) else o)
            ref += o[1:] if ref and o and o[0] == ref[-1] else o
            require([tuple(x) for x in q] == o, 'extend changed its argument')
        elif op == 5 and poly and n:
            i = c.i(-n - 1, n)
            c.note('split', i)
            if not -n <= i < n:
                require(fails(IndexError, lambda: p.split(i)), 'split outside accepted')
            else:
                q = p.split(i); k = i % n
                check_poly(c, q, ref[k:]); ref = ref[:k + 1]
                others.append((q, ref[k:] if False else [tuple(x) for x in q]))
        elif op == 6:
            c.note('reverse'); p.reverse(); ref.reverse()
        elif op in (7, 8):
            a = c.pick([None, c.i(-n - 2, n + 2)]); b = c.pick([None, c.i(-n - 2, n + 2)]); s = c.pick([None, 1, 1, -1, 2])
            c.note('slice', a, b, s)
            if s in (None, 1):
                q = p[slice(a, b, s)]
                require(isinstance(q, kind), 'type of a slice', type(q))
                check_poly(c, q, ref[slice(a, b, s)])
                others.append((q, ref[slice(a, b, s)]))
            else:
                # extended slices are refused (if they are not empty)
                try: q = p[slice(a, b, s)]
                except IndexError: pass
                else: require([tuple(x) for x in q] == [] or [tuple(x) for x in q] == ref[slice(a, b, s)], 'extended slice')
        elif op == 9 and poly:
            o = points(c, c.u(4)); c.note('swap', o)
            q = (Polygon if c.p(1, 2) else Vector2Array)(o)
            if c.p(1, 2) and isinstance(q, Polygon): q.length(); q.partialArea(); q.boundingBox()
            p.swap(q)
            check_poly(c, q, ref); ref = o
        elif op == 10:
            x, s = point(c), c.i(-4, 4) / 2
            check_poly(c, p * s, [(a * s, b * s) for a, b in ref]); check_poly(c, p + x, [(a + x[0], b + x[1]) for a, b in ref])
            r = p.roundToInteger()
            require([tuple(y) for y in r] == [(math.floor(a + .5), math.floor(b + .5)) for a, b in ref], 'roundToInteger')
            r.reverse()
            require([tuple(y) for y in r] == [(math.floor(a + .5), math.floor(b + .5)) for a, b in reversed(ref)], 'reversed Point2DArray')
        elif op == 11 and poly:
            k = c.u(4)
            q = [lambda: Polygon(p), lambda: copy.copy(p), lambda: copy.deepcopy(p), lambda: pickle.loads(pickle.dumps(p, c.u(5)))][k]()
            c.note('copy', k)
            check_poly(c, q, ref); others.append((q, list(ref)))
            if c.p(1, 2): others[-1] = (p, list(ref)); p = q
        elif op == 12 and n >= 2:
            i, t = c.u(n - 1), c.u(5) / 4
            q = p.interpolate(i, t)
            w = [(1 - t) * ref[i][k] + t * ref[i + 1][k] for k in (0, 1)]
            require(near(q[0], w[0]) and near(q[1], w[1]), 'interpolate', i, t, q, w)
        elif op == 13 and poly and n >= 2:
            q = point(c, 10)
            r = p.nearestPoint(q)
            best = min(on_segment_dist(q, a, b) for a, b in zip(ref, ref[1:]))
            require(near(dist(r, q), best) and min(on_segment_dist(r, a, b) for a, b in zip(ref, ref[1:])) < 1e-9, 'nearest point to', q, r, 'distance', dist(r, q), best)
        elif op == 14 and poly:
            c.note('invalidate'); p.invalidateProperties()
        check_poly(c, p, ref, c.p(1, 2))
    check_poly(c, p, ref)
    for q, r in others: require([tuple(x) for x in q] == r, 'a copy changed', list(q), r)
    return len(ref) > 1

def box(c):
    if c.p(1, 6): return None
    a, b = point(c), point(c)
    return (min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1]))
def mk(b): return BoundingBox() if b is None else BoundingBox(b[:2], b[2:])
def un(b):
    return None if b.isEmpty() else tuple(b.begin()) + tuple(b.end())

def boxes(c):
    a, b, q = box(c), box(c), point(c)
    A, B = mk(a), mk(b)
    c.note('boxes', a, b, q)
    union = a if b is None else b if a is None else (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]))
    inter = None if a is None or b is None else (max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3]))
    if inter and (inter[0] > inter[2] or inter[1] > inter[3]): inter = None
    require(un(A) == a and A.isEmpty() == (a is None), 'box', A, a)
    require(un(A | B) == union and un(B | A) == union, 'union', A | B, union)
    require(un(A & B) == inter and un(B & A) == inter, 'intersection', A & B, inter)
    require(un(A) == a and un(B) == b, 'operands changed')
    require(A.intersects(B) == (inter is not None), 'intersects', A, B)
    inside = a is not None and a[0] <= q[0] <= a[2] and a[1] <= q[1] <= a[3]
    require(A.contains(q) == inside, 'contains', A, q)
    require(A.contains(B) == (b is None or (union == a)), 'contains box', A, B)
    require((A == B) == (a == b) or (a is None and b is None), 'equality', A, B)
    require((A != B) == (not (A == B)), 'inequality')
    w = (q + q) if a is None else (min(a[0], q[0]), min(a[1], q[1]), max(a[2], q[0]), max(a[3], q[1]))
    require(un(A | q) == w, 'union with point', A | q, w)
    C = pickle.loads(pickle.dumps(A)) if c.p(1, 2) else BoundingBox(A)
    require(un(C) == a, 'copy')
    C |= q
    require(un(C) == w and un(A) == a, 'in-place union', C, A)
    C = BoundingBox(A); C |= B; require(un(C) == union, 'in-place union')
    C = BoundingBox(A); C &= B; require(un(C) == inter, 'in-place intersection')
    if a:
        require(near(A.area(), (a[2] - a[0]) * (a[3] - a[1])) and tuple(A.size()) == (a[2] - a[0], a[3] - a[1]), 'size/area')
        C = BoundingBox(A); C.moveTo(q)
        require(un(C) == q + (q[0] + a[2] - a[0], q[1] + a[3] - a[1]), 'moveTo', C)
        C = BoundingBox(A); C.moveBy(q)
        require(un(C) == (a[0] + q[0], a[1] + q[1], a[2] + q[0], a[3] + q[1]), 'moveBy', C)
        s = (abs(q[0]), abs(q[1]))
        C = BoundingBox(A); C.setSize(s)
        require(un(C) == a[:2] + (a[0] + s[0], a[1] + s[1]), 'setSize', C)
        C = BoundingBox(A); C.addSize(s)
        require(un(C) == a[:2] + (a[2] + s[0], a[3] + s[1]), 'addSize', C)
        C = BoundingBox(A); C.addBorder(s[0])
        require(un(C) == (a[0] - s[0], a[1] - s[0], a[2] + s[0], a[3] + s[0]), 'addBorder', C)
        C = BoundingBox(A); C.addBorder(s)
        require(un(C) == (a[0] - s[0], a[1] - s[1], a[2] + s[0], a[3] + s[1]), 'addBorder', C)
        C = BoundingBox(A); C.setBegin(q); C.setEnd((q[0] + s[0], q[1] + s[1]))
        require(un(C) == q + (q[0] + s[0], q[1] + s[1]), 'setBegin/setEnd', C)
        r = geomap.intPos(A)
        lo, hi = r.upperLeft(), r.lowerRight()
        require((lo[0], lo[1], hi[0], hi[1]) == (math.floor(a[0] + .5), math.floor(a[1] + .5), math.floor(a[2] + .5) + 1, math.floor(a[3] + .5) + 1), 'intPos', r)
    r = geomap.intPos(q)
    require((r[0], r[1]) == (math.floor(q[0] + .5), math.floor(q[1] + .5)), 'intPos', q, r)
    return a is not None and b is not None

def lines(c):
    ref = points(c, 1 + c.u(7))
    s, e = point(c), point(c)
    if s == e: return False
    c.note('intersectLine', ref, s, e)
    res = geomap.intersectLine(Polygon(ref), s, e)
    d = (e[0] - s[0], e[1] - s[1]); L = math.hypot(*d)
    side = lambda p: ((p[0] - s[0]) * d[1] - (p[1] - s[1]) * d[0])
    # (a point on a slanted line may be rounded to either side)
    if d[0] and d[1] and any(side(p) == 0 for p in ref): return False
    parts, cur = [], None
    for i, p in enumerate(ref):
        if i and (side(ref[i - 1]) >= 0) != (side(p) >= 0):
            a, b = side(ref[i - 1]), side(p)
            t = a / (a - b)
            x = (ref[i - 1][0] + t * (p[0] - ref[i - 1][0]), ref[i - 1][1] + t * (p[1] - ref[i - 1][1]))
            if cur is not None: cur.append(x); parts.append(cur); cur = None
            else: cur = [x]
        if side(p) >= 0:
            if cur is None: cur = []
            cur.append(p)
    if cur: parts.append(cur)
    require(len(res) == len(parts), 'number of parts', len(res), len(parts))
    for r, w in zip(res, parts):
        r = list(r)
        require(len(r) == len(w) and all(dist(x, y) < 1e-9 for x, y in zip(r, w)), 'part', r, w)
    # order of angles
    pts = [q for q in points(c, 4) if q != (0, 0)]
    for p in pts:
        t = geomap.angleTheta(p[1], p[0])
        require(-2 <= t <= 2, 'angleTheta', p, t)
        for q in pts:
            a, b = math.atan2(p[1], p[0]), math.atan2(q[1], q[0])
            u = geomap.angleTheta(q[1], q[0])
            if abs(a - b) > 1e-9: require((a < b) == (t < u), 'order of', p, q, t, u)
            else: require(abs(t - u) < 1e-9, 'angle of', p, q, t, u)
    return len(parts) > 0 and any(side(p) < 0 for p in ref)

def scans(c):
    ref = points(c, 3 + c.u(4))
    if c.p(1, 2): ref.append(ref[0])
    c.note('scanPoly', ref)
    sl = geomap.scanPoly(Polygon(ref))
    segs, px = {}, []
    require(len(sl) == sl.endIndex() - sl.startIndex(), 'length')
    for y in range(sl.startIndex(), sl.endIndex()):
        line = sl[y]
        segs[y] = [(line[i].begin, line[i].direction, line[i].end) for i in range(len(line))]
        for k, (b, d, e) in enumerate(segs[y]):
            require(b <= e and (not k or segs[y][k - 1][2] < b), 'scanline', y, segs[y])
            px += [(x, y) for x in range(b, e)]
        require(fails(IndexError, lambda: line[len(line)]), 'segment index accepted')
        if line and len(line): require((line[-1].begin, line[-1].end) == (segs[y][-1][0], segs[y][-1][2]), 'negative index')
    for y in (sl.startIndex() - 1, sl.endIndex()): require(fails(IndexError, lambda: sl[y]), 'scanline index accepted')
    got = [tuple(p) for p in geomap.scanPoly(Polygon(ref)).points()]
    require(sorted((int(x), int(y)) for x, y in got) == sorted(px), 'points()', got, px)
    start, cnt = c.i(-3, 3), 1 + c.u(5)
    part = geomap.scanPoly(Polygon(ref), cnt, start)
    require((part.startIndex(), part.endIndex()) == (start, start + cnt), 'range')
    for y in range(start, start + cnt):
        got = [(part[y][i].begin, part[y][i].direction, part[y][i].end) for i in range(len(part[y]))]
        require(got == segs.get(y, []), 'part of the scanlines', y, got, segs.get(y))
    return len(px) > 3

@prop('P29', 'at least two points left after the operations / two non-empty boxes / the line cuts the polygon / more than three crossed pixels')
def p29(c):
    k = c.u(6)
    f = [list_ops, list_ops, list_ops, boxes, lines, scans][k]
    c.classify(f.__name__)
    c.nontrivial(f(c))

# ---------------------------------------------------------------------------------------------------- P33

def curve(c, n, closed=False):
    """a polyline without zero-length segments; smooth or jagged"""
    pts = [(0.0, 0.0)]
    ang = c.u(16) * math.pi / 8
    jag = c.p(1, 3)
    while len(pts) < n:
        ang += (c.i(-12, 12) if jag else c.i(-3, 3)) * math.pi / 12
        st = c.pick([1, .5, .75, 1.5])
        pts.append((pts[-1][0] + st * math.cos(ang), pts[-1][1] + st * math.sin(ang)))
    if closed: pts.append(pts[0])
    if any(dist(a, b) < 1e-3 for a, b in zip(pts, pts[1:])) or dist(pts[0], pts[-1]) < (0 if closed else 1e-3): raise Discard()
    return pts

def arc(pts):
    r = [0.0]
    for a, b in zip(pts, pts[1:]): r.append(r[-1] + dist(a, b))
    return r

def angles_match(got, want, what):
    """want: [(arc length, (dx, dy))]; directions must be equal, angles continuous"""
    require(len(got) == len(want), what, 'has', len(got), 'entries instead of', len(want))
    prev = None
    for (p, a), (q, d) in zip(got, want):
        require(near(p, q), what, 'arc length', p, q)
        m = math.hypot(*d)
        if m > 1e-6:
            w = math.atan2(d[1], d[0])
            e = (a - w) / (2 * math.pi)
            require(abs(e - round(e)) < 1e-6, what, 'angle', a, 'instead of', w)
        if prev is not None: require(abs(a - prev) <= math.pi + 1e-6, what, 'angles are not continuous:', prev, a)
        prev = a

def chords(c):
    n = 3 + c.u(12)
    pts = curve(c, n); dx, skip = c.u(4), c.u(3)
    c.note('tangentList/curvatureList', pts, dx, skip)
    al = arc(pts)
    V = Vector2Array(pts)
    for name, f in (('tangentList', geomap.tangentList), ('curvatureList', geomap.curvatureList)):
        if dx < 1 or n < 2 * dx + 2 * skip:
            require(fails(ValueError, lambda: f(V, dx, skip)), name, 'accepts', n, 'points')
    if dx < 1 or n < 2 * dx + 2 * skip: return False
    mid = range(dx + skip, n - dx - skip)
    # chords of (nearly) zero length are left out
    angles_match(geomap.tangentList(V, dx, skip),
                 [(al[i], (pts[i + dx][0] - pts[i - dx][0], pts[i + dx][1] - pts[i - dx][1])) for i in mid if dist(pts[i + dx], pts[i - dx]) > 1e-6], 'tangentList')
    cl = geomap.curvatureList(V, dx, skip)
    want = []
    for i in mid:
        a, b, e = pts[i - dx], pts[i], pts[i + dx]
        u, v = (b[0] - a[0], b[1] - a[1]), (e[0] - b[0], e[1] - b[1])
        if math.hypot(*u) < 1e-6 or math.hypot(*v) < 1e-6: continue
        turn = math.atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1])
        # (turning back by pi has no sign)
        want.append((al[i], 2 * turn / (math.hypot(*u) + math.hypot(*v)), abs(abs(turn) - math.pi) < 1e-6))
    require(len(cl) == len(want), 'curvatureList has', len(cl), 'entries instead of', len(want))
    for (p, k), (q, w, turned) in zip(cl, want):
        require(near(p, q), 'arc length', p, q)
        require(abs(k - w) < 1e-5 or turned and abs(k + w) < 1e-5, 'curvature', k, w)
    return len(want) > 1

def extended(pts):
    """the polyline continued on both sides: cyclic if closed, else reflected at the end points; -> points, arc lengths, offset"""
    n = len(pts)
    if pts[0] == pts[-1]:
        e = pts[:-1] + pts + pts[1:]; off = n - 1
    else:
        f, l = pts[0], pts[-1]
        e = [(2 * f[0] - p[0], 2 * f[1] - p[1]) for p in pts[:0:-1]] + pts + [(2 * l[0] - p[0], 2 * l[1] - p[1]) for p in pts[-2::-1]]
        off = n - 1
    a = arc(e)
    return e, [x - a[off] for x in a], off

def at(e, al, s):
    for i in range(1, len(e)):
        if al[i] > s:
            t = (s - al[i - 1]) / (al[i] - al[i - 1])
            return tuple((1 - t) * e[i - 1][k] + t * e[i][k] for k in (0, 1))
    raise Discard()

def estimators(c):
    n = 4 + c.u(9)
    pts = curve(c, n, c.p(1, 3)); n = len(pts)
    e, al, off = extended(pts)
    total = arc(pts)[-1]
    conf = [c.pick([1.0, .5, 2.0]) for _ in pts] if c.p(1, 2) else [1.0] * n
    scale = total * (1 + c.u(9)) / 23
    c.note('estimators', pts, conf, scale)
    want = []
    for i in range(n):
        a = al[off + i]
        p, q = at(e, al, a + scale), at(e, al, a - scale)
        want.append((a, (p[0] - q[0], p[1] - q[1])))
    angles_match(geomap.tangentListChord(pts, conf, scale), want, 'tangentListChord')
    third = geomap.thirdDerivativeOfPolygon(pts, scale)
    require(len(third) == n, 'length')
    for i in range(n):
        a = al[off + i]
        p2, p1, m1, m2 = (at(e, al, a + k * scale) for k in (2, 1, -1, -2))
        w = math.hypot(*[(p2[k] - 2 * p1[k] + 2 * m1[k] - m2[k]) / (2 * scale**3) for k in (0, 1)])
        require(near(third[i][0], a) and abs(third[i][1] - w) < 1e-7 * (1 + 1 / scale**3), 'third derivative at point', i, third[i][1], 'instead of', w)
    # normalised Gaussian derivative
    sc = [scale] * n if c.p(1, 2) else [scale * c.pick([1, .5, 1.25]) for _ in pts]
    ec = (conf[:-1] + conf + conf[1:]) if pts[0] == pts[-1] else conf[:0:-1] + conf + conf[-2::-1]
    def reference(cut):
        want = []
        for i in range(n):
            s2 = sc[i]**2; o = off + i
            sp = [0, 0]; spp = [0, 0]; sw = swp = 0
            for j in range(o - n + 1, o + n):
                d = al[j] - al[o]
                if abs(abs(d) - cut * sc[i]) < 1e-6: raise Discard()
                if abs(d) > cut * sc[i]: continue
                w = ec[j] * math.exp(-d * d / 2 / s2)
                for k in (0, 1): sp[k] += w * e[j][k]; spp[k] += d / s2 * w * e[j][k]
                sw += w; swp += d / s2 * w
            want.append((al[o], tuple((sw * spp[k] - swp * sp[k]) / sw**2 for k in (0, 1))))
        return want
    if len(set(sc)) == 1: angles_match(geomap.tangentListNormalizedGaussian(pts, conf, sc[0]), reference(3), 'tangentListNormalizedGaussian')
    angles_match(geomap.tangentListNormalizedGaussianVariableScale(pts, conf, sc), reference(2.5), 'tangentListNormalizedGaussianVariableScale')
    require(fails(Exception, lambda: geomap.tangentListChord(pts, conf[:-1], scale)), 'lists of different sizes accepted')
    return n > 4

def gauss(s, order, x):
    g = math.exp(-x * x / 2 / s / s) / (math.sqrt(2 * math.pi) * s)
    if order == 0: return g
    if order == 1: return -x / s**2 * g
    return (x * x / s**2 - 1) / s**2 * g
def radius(s, order): return math.ceil(s * (3 + .5 * order))

def smoothing(c):
    n = 2 + c.u(14)
    s = c.pick([1.0, .5, .75, 1.5, .3])
    vec = c.p(1, 2)
    equi = c.p(1, 2); order = c.pick([0, 0, 1, 2])
    pos = [0.0]
    for _ in range(n - 1): pos.append(pos[-1] + (.71 if equi else c.pick([.71, .43, 1.37])))
    const = c.p(1, 4)
    v0 = (c.i(-5, 5), c.i(-5, 5))
    val = [v0 if const else (c.i(-5, 5), c.i(-5, 5)) for _ in pos]
    al = [(p, tuple(map(float, v)) if vec else float(v[0])) for p, v in zip(pos, val)]
    comp = (lambda x: tuple(x)) if vec else (lambda x: (x,))
    c.note('gaussianConvolveByArcLength', al, s, order)
    R = radius(s, order)
    if any(abs(abs(a - b) - R) < 1e-6 for a in pos for b in pos): raise Discard()
    res = geomap.gaussianConvolveByArcLength(al, s, order)
    require(len(res) == n and all(near(r[0], p) for r, p in zip(res, pos)), 'arc lengths', res)
    for i in range(n):
        for k in range(2 if vec else 1):
            got = comp(res[i][1])[k]
            if order == 0:
                ws = [(gauss(s, 0, p - pos[i]), val[j][k]) for j, p in enumerate(pos) if abs(p - pos[i]) <= R]
                w = sum(a * b for a, b in ws) / sum(a for a, b in ws)
                require(abs(got - w) < 1e-7, 'smoothed value', i, got, w)
            elif const:
                require(abs(got) < 1e-7 * 50 / s**order, 'derivative of a constant at', i, 'is', got)
            elif order == 1 and equi and pos[-1] > 2 * R:
                # border treatment: the first/last value is repeated
                m = int(R / .71) + 1
                full = [gauss(s, 1, j * .71) * val[min(max(i + j, 0), n - 1)][k] for j in range(-m, m + 1) if abs(j * .71) <= R]
                require(abs(got - sum(full)) < 1e-6, 'derivative at', i, got, 'instead of', sum(full)); c.classify('derivative')
    # cyclic
    if vec and n > 3:
        pts = [(.8137 * x, .8137 * y) for x, y in curve(c, n)]; a = arc(pts); L = a[-1] + dist(pts[0], pts[-1])
        if L > R and dist(pts[0], pts[-1]) > 1e-3 and not any(abs(abs(x - y + m * L) - R) < 1e-6 for x in a for y in a for m in (-1, 0, 1)):
            res = geomap.gaussianConvolveByArcLengthCyclic(list(zip(a, pts)), s, order)
            for i in range(n):
                ws = [(gauss(s, order, x + m * L - a[i]), pts[j]) for m in (-1, 0, 1) for j, x in enumerate(a) if abs(x + m * L - a[i]) <= R]
                for k in (0, 1):
                    w = sum(g * p[k] for g, p in ws) / (1 if order else sum(g for g, p in ws))
                    require(abs(res[i][1][k] - w) < 1e-6, 'cyclic convolution', i, res[i][1], w)
            c.classify('cyclic')
            df = c.pick([0.0, .25])
            if order == 0 and a[-1] > R + df:
                want = []
                def sm(i, x0):
                    ws = [(gauss(s, 0, x + m * L - x0), pts[j]) for m in (-1, 0, 1) for j, x in enumerate(a) if abs(x + m * L - x0) <= R]
                    if any(abs(abs(x + m * L - x0) - R) < 1e-6 for m in (-1, 0, 1) for x in a): raise Discard()
                    return [sum(g * p[k] for g, p in ws) / sum(g for g, p in ws) for k in (0, 1)]
                for i in range(n):
                    d = df or min(a[i] - a[i - 1] if i else L - a[-1], a[i + 1] - a[i] if i < n - 1 else L - a[-1]) / 2
                    p, q = sm(i, a[i] - d), sm(i, a[i] + d)
                    want.append((a[i], (q[0] - p[0], q[1] - p[1])))
                angles_match(geomap.tangentListGaussianCyclic(Vector2Array(pts), s, df), want, 'tangentListGaussianCyclic')
    if order == 0 and n > 3:
        pts = [(.8137 * x, .8137 * y) for x, y in curve(c, n)]; a = arc(pts)
        df = c.pick([0.0, .25])
        if a[-1] > R + df and not any(abs(abs(x - y) - R) < 1e-6 for x in a for y in a):
            e, ea, off = extended(pts)
            def sm(x0):
                if any(abs(abs(x - x0) - R) < 1e-6 for x in ea): raise Discard()
                ws = [(gauss(s, 0, x - x0), p) for x, p in zip(ea, e) if abs(x - x0) <= R]
                return [sum(g * p[k] for g, p in ws) / sum(g for g, p in ws) for k in (0, 1)]
            want = []
            for i in range(n):
                d = df or min(([a[i] - a[i - 1]] if i > 0 else []) + ([a[i + 1] - a[i]] if i < n - 1 else [])) / 2
                p, q = sm(a[i] - d if i else a[i]), sm(a[i] + d if i < n - 1 else a[i])
                want.append((a[i], (q[0] - p[0], q[1] - p[1])))
            angles_match(geomap.tangentListGaussianReflective(Vector2Array(pts), s, df), want, 'tangentListGaussianReflective')
            c.classify('reflective')
            d = c.pick([.37, .9, 2.3])
            alp = list(zip(a, [tuple(p) for p in pts]))
            eq = geomap.equidistantGaussians(alp, s, d)
            k = 0
            while k * d < a[-1] - 1e-9:
                require(k < len(eq), 'equidistantGaussians ends at', k)
                x0 = eq[k][0]
                require(abs(x0 - k * d) < 1e-9, 'position', x0, k * d)
                if not any(abs(abs(x - x0) - R) < 1e-6 for x in a):
                    ws = [(gauss(s, 0, x - x0), p) for x, p in zip(a, pts) if abs(x - x0) <= R]
                    for q in (0, 1):
                        w = sum(g * p[q] for g, p in ws) / sum(g for g, p in ws)
                        require(abs(eq[k][1][q] - w) < 1e-6, 'equidistantGaussians', k, eq[k], w)
                k += 1
            require(len(eq) == k, 'equidistantGaussians returned', len(eq), 'values instead of', k)
    return n > 4

def composition(c):
    lists, want, off = [], [], 0.0
    for _ in range(1 + c.u(4)):
        t = [(float(i), c.i(-9, 9) * .65) for i in range(c.u(4))]
        L = float(len(t)) + .5
        rev = c.p(1, 2)
        lists.append((t, -L if rev else L))
        if rev: want += [(off + L - p, a + math.pi) for p, a in reversed(t)]
        else: want += [(off + p, a) for p, a in t]
        off += L
    c.note('composeTangentLists', lists)
    w = [(p, (math.cos(a), math.sin(a))) for p, a in want]
    angles_match(geomap.composeTangentLists(lists), w, 'composeTangentLists')
    res, off2 = [], 0.0
    for t, L in lists: off2 = geomap.appendTangentList(res, off2, t, L)
    require(near(off2, off), 'arc length offset', off2, off)
    angles_match(res, w, 'appendTangentList')
    # least squares
    xs = sorted({c.i(-8, 8) / 2 for _ in range(3 + c.u(6))})
    if len(xs) >= 3:
        data, a = [], 0.0
        for x in xs: a += c.i(-4, 4) * .37; data.append((x, a))
        fit = geomap.ParabolaFit()
        k = c.u(len(data) + 1)
        fit.addTangentList(data[:k])
        if k >= 3 and c.p(1, 2): fit.parabolaParams()
        fit.addTangentList(data[k:])
        A = numpy.array([[x * x, x, 1] for x, _ in data]); y = numpy.array([v for _, v in data])
        p = numpy.linalg.lstsq(A, y, rcond=None)[0]
        got = fit.parabolaParams()
        require(all(abs(u - v) < 1e-6 * (1 + abs(v)) for u, v in zip(got, p)), 'parabola', got, p, data)
        err = float(((A @ p - y)**2).sum())
        require(abs(fit.sumOfSquaredErrors() - err) < 1e-6 and abs(fit.sumOfSquaredErrors(data) - err) < 1e-6, 'errors', fit.sumOfSquaredErrors(), fit.sumOfSquaredErrors(data), err)
        require(abs(fit.meanSquaredError(data) - err / len(data)) < 1e-6, 'mean error')
        x0 = c.i(-6, 6) / 4
        require(abs(fit.parabola(x0) - (p[0] * x0 * x0 + p[1] * x0 + p[2])) < 1e-6 * (1 + abs(p).sum() * 9), 'parabola value')
        require(abs(fit.totalCovarianceOfResiduals() - 3) < 1e-5 and abs(fit.meanCovarianceOfResiduals() - 3 / len(data)) < 1e-5, 'covariance')
    return len(want) > 1

@prop('P33', 'more than four points, or more than one tangent resulting')
def p33(c):
    k = c.u(4)
    f = [chords, estimators, smoothing, composition][k]
    c.classify(f.__name__)
    c.nontrivial(f(c))

# ---------------------------------------------------------------------------------------------------- P28

def check_stats(c, s, vals, q):
    L = sum(l for _, l in vals)
    require(near(s.average(), sum(v * l for v, l in vals) / L if L else 0), 'average', s.average())
    if vals:
        require(s.min() == min(v for v, _ in vals), 'min', s.min(), vals)
        require(s.max() == max(v for v, _ in vals), 'max', s.max(), vals)
    if q and vals:
        for _ in range(2):
            p = c.u(9) / 8
            acc, want = 0, None
            for v, l in sorted(vals):
                acc += l
                if acc >= L * p: want = v; break
            if p == 1: want = max(v for v, _ in vals)
            require(s.quantile(p) == want, 'quantile', p, s.quantile(p), want, vals)
    elif q: require(fails(Exception, lambda: s.quantile(.5)), 'quantile of nothing')

@prop('P28', 'at least two values after merging')
def p28(c):
    q = c.p(2, 3)
    cls = geomap.QuantileStatistics if q else geomap.PolylineStatistics
    objs = [(cls(), [])]
    for _ in range(1 + c.u(10)):
        k = c.u(len(objs)); s, vals = objs[k]
        op = c.u(6)
        if op <= 2:
            v, l = c.i(-8, 8) / 2, c.u(9) / 4
            c.note('add', k, v, l); s(v, l); vals.append((v, l))
        elif op == 3:
            c.note('new'); objs.append((cls(), []))
        elif op == 4:
            o = c.u(len(objs))
            if o != k:
                c.note('merge', o, 'into', k); s.merge(objs[o][0]); vals.extend(objs[o][1])
        else:
            proto = c.u(5)
            c.note('pickle', k); objs.append((pickle.loads(pickle.dumps(s, proto)), list(vals)))
        if c.p(1, 2):
            j = c.u(len(objs)); check_stats(c, *objs[j], q)
    for s, vals in objs: check_stats(c, s, vals, q)
    c.nontrivial(max(len(v) for _, v in objs) >= 2)

if __name__ == '__main__':
    sys.exit(main())
