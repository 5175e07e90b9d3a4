"""Random planar maps and full snapshots for the Python checks."""
from pbt import *
from gmpy import *
from collections import defaultdict

def cross(o, a, b):
    return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0])
def on_segment(p, a, b):
    return cross(a, b, p) == 0 and min(a[0],b[0]) <= p[0] <= max(a[0],b[0]) and min(a[1],b[1]) <= p[1] <= max(a[1],b[1])
def compatible(a, b, c, d):
    """the segments share at most common end points"""
    ends = {a, b} & {c, d}
    for p in (a, b):
        if p not in ends and on_segment(p, c, d): return False
    for p in (c, d):
        if p not in ends and on_segment(p, a, b): return False
    if len(ends) == 2: return False
    if ends: return True
    s = lambda v: (v > 0) - (v < 0)
    return not (s(cross(a,b,c)) != s(cross(a,b,d)) and s(cross(c,d,a)) != s(cross(c,d,b)))

class Gen:
    """points in half units; segs: list of point pairs; chains: edges as point lists"""
    def __init__(self, c, maxpts=10, grid=None, isolated=True):
        self.w, self.h = c.i(2, 10), c.i(2, 10)
        W, H = 2 * self.w - 1, 2 * self.h - 1
        Q, ox, oy = 2, 0, 0        # coordinates are (x + ox) / Q, (y + oy) / Q
        if c.p(1, 8):
            if c.p(1, 2): Q = 8; c.classify('finer coordinates')
            if c.p(1, 2):
                ox, oy = -c.u(12), -c.u(12); W += c.u(12) - ox; H += c.u(12) - oy; c.classify('beyond the image')
        self.Q = Q
        segs = []
        pts = []
        def add(a, b):
            if a != b and all(compatible(a, b, x, y) for x, y in segs) and not any(p != a and p != b and on_segment(p, a, b) for p in pts):
                for p in (a, b):
                    if p not in pts: pts.append(p)
                segs.append((a, b)); return True
            return False
        def point():
            if pts and c.p(1, 2): return c.pick(pts)
            p = (c.u(W), c.u(H))
            if any(on_segment(p, a, b) and p != a and p != b for a, b in segs): return None
            return p
        if c.p(2, 3) if grid else c.p(1, 3):   # a grid
            nx, ny = (c.i(1, 5), c.i(1, 4)) if grid else (c.i(1, 3), c.i(1, 3))
            xs = sorted({c.u(W) for _ in range(nx + 1)}); ys = sorted({c.u(H) for _ in range(ny + 1)})
            for y in ys:
                for x0, x1 in zip(xs, xs[1:]): add((x0, y), (x1, y))
            for x in xs:
                for y0, y1 in zip(ys, ys[1:]): add((x, y0), (x, y1))
        for _ in range(c.pick([1 + c.u(maxpts), 1 + c.u(maxpts), maxpts, c.u(3)])):
            k = c.pick([2, 3, 0, 1, 0]) if segs or pts else c.pick([1, 0, 0, 2, 0, 0])
            if k == 0:    # axis-parallel box
                x0, y0 = c.u(W - 1), c.u(H - 1); x1, y1 = x0 + 1 + c.u(W), y0 + 1 + c.u(H)
                x1, y1 = min(x1, W - 1), min(y1, H - 1)
                q = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
                for i in range(4): add(q[i], q[(i+1) % 4])
            elif k == 1:  # isolated point
                p = point()
                if isolated and p and p not in pts: pts.append(p)
            else:
                a, b = point(), point()
                if a and b: add(a, b)
        adj = defaultdict(list)
        for a, b in segs: adj[a].append(b); adj[b].append(a)
        # which points become nodes
        node = {p: len(adj[p]) != 2 or c.p(1, 3) for p in pts}
        done, chains = set(), []
        def follow(a, b):
            ch = [a]; prev, cur = a, b
            while True:
                ch.append(cur); done.add(frozenset((prev, cur)))
                if node[cur]: return ch
                nx = [q for q in adj[cur] if q != prev][0]
                prev, cur = cur, nx
        for p in pts:
            if node[p]:
                for q in adj[p]:
                    if frozenset((p, q)) not in done: chains.append(follow(p, q))
        for p in pts:   # circles without node
            for q in adj[p]:
                if frozenset((p, q)) not in done:
                    node[p] = True; chains.append(follow(p, q))
        self.nodes = [p for p in pts if node[p]]
        gaps = c.p(1, 3)
        lab, l = {}, 0
        for p in c.shuffled(self.nodes):
            if gaps: l += c.u(3) == 2
            lab[p] = l; l += 1
        self.nodepos = [None] * l
        for p in lab: self.nodepos[lab[p]] = ((p[0] + ox) / Q, (p[1] + oy) / Q)
        self.edges = [None]
        for ch in c.shuffled(chains):
            if gaps:
                while c.p(1, 4): self.edges.append(None)
            if c.p(1, 2): ch = ch[::-1]
            pl = [((x + ox) / Q, (y + oy) / Q) for x, y in ch]
            if c.p(1, 12):     # many points
                k = c.pick([2, 8, 16])
                pl = [((a[0] * (k - i) + b[0] * i) / k, (a[1] * (k - i) + b[1] * i) / k) for a, b in zip(pl, pl[1:]) for i in range(k)] + pl[-1:]
            self.edges.append((lab[ch[0]], lab[ch[-1]], pl))
        c.note('size %dx%d nodes %s edges %s' % (self.w, self.h, self.nodepos, self.edges))
    def build(self, stage=2, labelImage=True):
        m = GeoMap(self.nodepos, self.edges if len(self.edges) > 1 else [], geomap.Size2D(self.w, self.h))
        if stage >= 1: m.sortEdgesDirectly()
        if stage >= 2: m.initializeMap(labelImage)
        return m

def has(o, *names):
    """whether the internal names a check needs (still) exist"""
    return all(hasattr(type(o), n) or hasattr(o, n) for n in names)
def need(o, *names):
    if not has(o, *names): raise Discard()

def darts(m):
    for e in m.edgeIter():
        yield e.label(); yield -e.label()

def orbit(m, d, step):
    x = m.dart(d); out = [d]
    while True:
        getattr(x, step)()
        if x.label() == d: return out
        out.append(x.label())
        require(len(out) < 10000, 'endless', step, 'orbit of dart', d)

def canon(cyc):
    k = cyc.index(min(cyc))
    return tuple(cyc[k:] + cyc[:k])

def contour_sets(face):
    """(outer contour or None, frozenset of hole contours) as canonical phi orbits"""
    m = None
    cs = [canon([d.label() for d in a.phiOrbit()]) for a in face.contours()]
    hs = [canon([d.label() for d in a.phiOrbit()]) for a in face.holeContours()]
    return cs, hs

INTERNAL = 0xf0000000
def snap(m, exclude=()):
    s = {}
    s['size'] = tuple(m.imageSize())
    s['counts'] = (m.nodeCount, m.edgeCount)
    s['sorted'], s['init'] = m.edgesSorted(), m.mapInitialized()
    s['nodes'] = {n.label(): (tuple(n.position()), n.degree()) for n in m.nodeIter()}
    s['edges'] = {e.label(): (e.startNodeLabel(), e.endNodeLabel(), tuple(tuple(p) for p in e)) for e in m.edgeIter()}
    s['eflags'] = {e.label(): e.flags() for e in m.edgeIter()}
    s['sigma'] = {d: m.dart(d).nextSigma().label() for d in darts(m)}
    if m.mapInitialized():
        s['faceCount'] = m.faceCount
        s['maxFaceLabel'] = m.maxFaceLabel()
        s['hasLabelImage'] = m.hasLabelImage()
        s['sides'] = {e.label(): (e.leftFaceLabel(), e.rightFaceLabel()) for e in m.edgeIter()}
        s['faces'] = {}
        for f in m.faceIter():
            cs, hs = contour_sets(f)
            s['faces'][f.label()] = (f.flags() & ~INTERNAL, cs[0] if len(cs) > len(hs) else None, frozenset(hs), f.area(), f.holeCount(),
                                     f.pixelArea() if f.label() and m.hasLabelImage() else None)
        s['labels'] = numpy.asarray(m.labelImage()).reshape(s['size']).tolist() if m.hasLabelImage() else None
    for k in exclude: s.pop(k, None)
    return s

def diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                out += ['%s[%s]: %s != %s' % (k, i, x.get(i), y.get(i)) for i in sorted(set(x) | set(y)) if x.get(i) != y.get(i)][:4]
            else:
                out.append('%s: %s != %s' % (k, x, y))
    return '; '.join(out)[:1500]
def same(a, b, *what):
    require(a == b, *what, lambda: diff(a, b))

def choose_op(c, m):
    """a random legal operation, as a list that apply_op performs (also on an equal map)"""
    es = [e.label() for e in m.edgeIter()]
    k = c.u(8)
    if k == 0 or not es:
        iso = [n.label() for n in m.nodeIter() if n.isIsolated()]
        return ['removeIsolatedNode', c.pick(iso)] if iso else ['none']
    if k == 1:
        e = c.pick(es); seg = c.u(len(m.edge(e)) - 1)
        a, b = m.edge(e)[seg], m.edge(e)[seg + 1]
        p = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
        return ['splitEdge', e, seg, p]
    if k == 2:
        ds = []
        for n in m.nodeIter():
            if n.hasDegree(2):
                a = n.anchor()
                if a.edgeLabel() != a.clone().nextSigma().edgeLabel(): ds += [a.label(), a.clone().nextSigma().label()]
        return ['mergeEdges', c.pick(ds)] if ds else ['none']
    d = c.pick(es) * (1 if c.p(1, 2) else -1)
    if not m.mapInitialized():
        return ['removeEdge', d]
    br = m.dart(d).leftFaceLabel() == m.dart(d).rightFaceLabel()
    if k == 3: return ['removeEdge', d]
    return ['removeBridge' if br else 'mergeFaces', d]

def apply_op(m, op):
    """performs op; -> description of the result"""
    n = op[0]
    if n == 'none': return None
    if n == 'removeIsolatedNode': return bool(m.removeIsolatedNode(m.node(op[1])))
    if n == 'splitEdge': return m.splitEdge(m.edge(op[1]), op[2], op[3]).label()
    r = getattr(m, n)(m.dart(op[1]))
    return None if r is None else r.label()

def prepared(c, ops=4, labelImage=None, **kw):
    """a random initialized map after some operations"""
    g = Gen(c, **kw)
    m = g.build(2, c.p(3, 4) if labelImage is None else labelImage)
    for _ in range(c.u(ops + 1)):
        op = choose_op(c, m); c.note(op); apply_op(m, op)
    return g, m
