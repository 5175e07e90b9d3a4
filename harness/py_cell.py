"""P35: the Python module cellimage (pixel-based maps)"""
import os, sys
from pbt import *
import gmpy, numpy, vigra, cellimage
for c in ('DartIterator', 'NodeIterator', 'EdgeIterator', 'FaceIterator'):
    k = getattr(cellimage.GeoMap, c)
    if not hasattr(k, '__next__'): k.__next__ = k.next
from cellimage import CellPixel, CellType, CellImage, GeoMap
Region, Line, Vertex = CellType.Region, CellType.Line, CellType.Vertex
DX = (1, 1, 0, -1, -1, -1, 0, 1); DY = (0, -1, -1, -1, 0, 1, 1, 1)

def quietly(f):
    """the import of cell images prints progress information"""
    sys.stdout.flush(); old = os.dup(1); n = os.open(os.devnull, os.O_WRONLY); os.dup2(n, 1); os.close(n)
    try: return f()
    finally: os.dup2(old, 1); os.close(old)

def fails(exc, f):
    try: f()
    except exc: return True
    return False

def framed(im, x, y):
    W, H = len(im), len(im[0])
    if x < -1 or y < -1 or x > W or y > H: return 0
    return 1 if not (0 <= x < W and 0 <= y < H) else im[x][y]

def thin(im):
    W, H = len(im), len(im[0])
    ch = True
    while ch:
        ch = False
        for y in range(H):
            for x in range(W):
                if not im[x][y]: continue
                v = [framed(im, x + DX[k], y + DY[k]) for k in range(8)]
                if sum(v) <= 1: continue
                n = 0
                for k in (0, 2, 4, 6):
                    a, b, c = 1 - v[k], 1 - v[(k + 1) % 8], 1 - v[(k + 2) % 8]
                    n += a - a * b * c
                if n == 1: im[x][y] = 0; ch = True

def gen(c):
    """thinned outlines without clusters of junctions (which are outside the domain, see P23)"""
    W, H = 3 + c.u(9), 3 + c.u(9)
    im = [[0] * H for _ in range(W)]
    def line(x, y, x2, y2):
        n = max(abs(x2 - x), abs(y2 - y))
        for k in range(n + 1):
            a, b = (x + ((x2 - x) * k * 2 + n) // (2 * n), y + ((y2 - y) * k * 2 + n) // (2 * n)) if n else (x, y)
            if 0 <= a < W and 0 <= b < H: im[a][b] = 1
    for _ in range(1 + c.u(4)):
        x, y, k = c.u(W), c.u(H), c.u(4)
        if k == 0: line(x, y, c.u(W), c.u(H))
        elif k == 1:
            x2, y2 = c.u(W), c.u(H)
            line(x, y, x2, y); line(x2, y, x2, y2); line(x2, y2, x, y2); line(x, y2, x, y)
        elif k == 2:
            r = 1 + c.u(4)
            line(x - r, y, x, y - r); line(x, y - r, x + r, y); line(x + r, y, x, y + r); line(x, y + r, x - r, y)
        else: im[x][y] = 1
    thin(im)
    return im

def cells(m):
    ci = m.cellImage; W, H = ci.width(), ci.height()
    r = {}
    for y in range(H):
        for x in range(W):
            p = ci.get(x, y)
            r.setdefault((str(p.type), p.label), set()).add((x - 2, y - 2))
    return r

def xy(p): return (p[0], p[1])
def box(px):
    return (min(x for x, y in px), min(y for x, y in px), max(x for x, y in px) + 1, max(y for x, y in px) + 1)
def rect(r): return (r.left(), r.top(), r.right(), r.bottom())
def key(d):
    """a dart, identified by its edge and first pixel (and the node pixel before it)"""
    it = iter(d); s = xy(it.nodePosition())
    return (s, xy(next(it)))

def check(m, im=None, fat=()):
    """everything observable agrees with the cell image; -> state"""
    px = cells(m)
    state = {}
    for name, lst, mx in (('Vertex', m.nodes, m.maxNodeLabel()), ('Line', m.edges, m.maxEdgeLabel()), ('Region', m.faces, m.maxFaceLabel())):
        labels = sorted(l for t, l in px if t == name)
        infos = list(lst)
        require([i.label for i in infos] == labels, name, 'iterator yields', [i.label for i in infos], 'instead of', labels)
        require(len(lst) == len(labels), name, 'len()', len(lst), 'instead of', len(labels))
        require(mx > max(labels, default=-1), name, 'maximal label', mx)
        for i in infos:
            w = px[name, i.label]
            require(i.initialized(), 'initialized')
            require(lst[i.label].label == i.label and lst[i.label].size == i.size, name, 'access by label', i.label)
            require(rect(i.bounds) == box(w), name, i.label, 'bounds', i.bounds, box(w))
            require(i.size == len(w) or name == 'Region' and not i.label, name, i.label, 'size', i.size, len(w))
            state[name, i.label] = frozenset(w)
        for l in range(mx):
            if l not in labels: require(not lst[l].initialized(), name, l, 'is not in the cell image but initialized')
        for l in (mx, mx + 1, mx + 100, -1, -2): require(fails(IndexError, lambda: lst[l]), name, 'index', l, 'accepted')
    require(all(t in ('Vertex', 'Line', 'Region') for t, _ in px), 'cell types')
    darts = {}
    for n in m.nodes:
        a = n.anchor
        require(a.startNodeLabel() == n.label and a.startNode().label == n.label, 'anchor of', n.label)
        if not n.degree: require(a.isSingular(), 'anchor of isolated node'); continue
        d = GeoMap.DartTraverser(a); k = 0
        while True:
            require(d.startNodeLabel() == n.label, 'sigma orbit')
            require(key(d) not in darts, 'dart found twice')
            darts[key(d)] = (n.label, d.edgeLabel(), d.leftFaceLabel(), d.rightFaceLabel())
            require(d.edge().label == d.edgeLabel() and d.leftFace().label == d.leftFaceLabel() and d.rightFace().label == d.rightFaceLabel()
                    and d.endNode().label == d.endNodeLabel(), 'cells of a dart')
            q = GeoMap.DartTraverser(d)
            require(q == d and not q != d, 'copied dart differs')
            q.nextSigma().prevSigma(); require(q == d, 'prevSigma')
            q.nextPhi().prevPhi(); require(q == d, 'prevPhi')
            q.nextAlpha().prevAlpha(); require(q == d, 'prevAlpha')
            q.nextPhi(); r = GeoMap.DartTraverser(d); r.nextAlpha(); r.prevSigma(); require(q == r, 'phi')
            cellimage.validateDart(d)
            k += 1; require(k < 1000, 'endless orbit')
            d.nextSigma()
            if d == a: break
        require(k == n.degree, 'degree of node', n.label, n.degree, k)
        state['deg', n.label] = n.degree
    for e in m.edges:
        pts = [xy(p) for p in e.start]
        require((e.label in fat or len(pts) == len(set(pts))) and set(pts) <= px['Line', e.label], 'iterated pixels of edge', e.label, pts)
        if e.label not in fat:      # (nodes of several pixels that became part of the edge may be crossed on different ways)
            require(set(pts) == px['Line', e.label], 'iterated pixels of edge', e.label, pts)
            back = [xy(p) for p in e.end]
            require(back == pts[::-1], 'edge iterated from its other end', back, pts)
        it = iter(e.start); s = xy(it.nodePosition()); list(it); t = xy(it.nodePosition())
        require(s in px['Vertex', e.start.startNodeLabel()] and t in px['Vertex', e.end.startNodeLabel()], 'node positions of edge', e.label, s, t)
        chain = [s] + pts + [t]
        require(all(max(abs(a[0] - b[0]), abs(a[1] - b[1])) == 1 for a, b in zip(chain, chain[1:])), 'edge', e.label, 'is not connected:', chain)
        require(e.start.edgeLabel() == e.label == e.end.edgeLabel() and e.start.endNodeLabel() == e.end.startNodeLabel(), 'edge ends')
        state['ends', e.label] = tuple(sorted((e.start.startNodeLabel(), e.end.startNodeLabel())))
        state['sides', e.label] = tuple(sorted((e.start.leftFaceLabel(), e.start.rightFaceLabel())))
    require(len(darts) == 2 * len(m.edges), 'number of darts', len(darts))
    seen = set(); iso = 0
    for f in m.faces:
        cs = f.contours
        for l in (len(cs), len(cs) + 1, -1): require(fails(IndexError, lambda: cs[l]), 'contour index', l, 'accepted')
        state['contours', f.label] = len(cs)
        for k in range(len(cs)):
            a = cs[k]
            if a.isSingular(): iso += 1; require(a.startNode().degree == 0, 'singular contour'); continue
            d = GeoMap.DartTraverser(a)
            while True:
                require(d.leftFaceLabel() == f.label, 'contour of face', f.label, 'has a dart with left face', d.leftFaceLabel())
                require(key(d) in darts and key(d) not in seen, 'contour dart')
                seen.add(key(d)); d.nextPhi()
                if d == a: break
    require(len(seen) == len(darts) and iso == sum(not n.degree for n in m.nodes), 'contours do not cover all darts')
    if im is not None:
        for (t, l), w in px.items():
            for x, y in w:
                b = framed(im, x, y)
                if b: require(t != 'Region', 'boundary pixel', (x, y), 'belongs to a face')
                elif t == 'Line': require(False, 'background pixel', (x, y), 'belongs to an edge')
                # (holes within nodes are filled)
    return state

def pixels(c):
    t, l = c.pick([Region, Line, Vertex]), c.u(1000)
    p = CellPixel(t, l); c.note('CellPixel', t, l)
    require(p.type == t and p.label == l, 'CellPixel', p)
    t2, l2 = c.pick([Region, Line, Vertex]), c.u(1000)
    q = CellPixel(t2, l2)
    require((p == q) == (t == t2 and l == l2), 'equality'); require((int(p) == int(q)) == (p == q), 'int()')
    if c.p(1, 2): p.type = t2; require(p.type == t2 and p.label == l, 'setting the type', p); p.label = l2
    else: p.label = l2; require(p.type == t and p.label == l2, 'setting the label', p); p.type = t2
    require(p == q, 'CellPixel set to', t2, l2, 'is', p)
    require(str(t2) in repr(p) and str(l2) in repr(p), 'repr', repr(p))
    W, H = 1 + c.u(5), 1 + c.u(5)
    ref = {(x, y): (c.pick([Region, Line, Vertex]), c.u(100)) for x in range(W) for y in range(H)}
    a = numpy.array([[int(CellPixel(*ref[x, y])) for y in range(H)] for x in range(W)], numpy.float32)
    ci = CellImage(vigra.taggedView(a, 'xy'))
    require((ci.width(), ci.height(), xy(ci.size())) == (W, H, (W, H)), 'size', ci.size())
    for _ in range(c.u(5)):
        x, y, v = c.i(-1, W), c.i(-1, H), (c.pick([Region, Line, Vertex]), c.u(100))
        k = c.u(3); c.note('set', k, x, y, v)
        f = [lambda: ci.set((x, y), CellPixel(*v)), lambda: ci.set(CellPixel(*v), x, y), lambda: ci.__setitem__((x, y), CellPixel(*v))][k]
        if 0 <= x < W and 0 <= y < H: f(); ref[x, y] = v
        else:
            require(fails(RuntimeError, f), 'pixel outside set')
            require(fails(RuntimeError, lambda: ci.get(x, y)) and fails(RuntimeError, lambda: ci[x, y]) and fails(RuntimeError, lambda: ci.get((x, y))), 'pixel outside read')
    s = numpy.asarray(ci.serialize()).reshape(W, H)
    d = CellImage(ci.serialize())
    for (x, y), v in ref.items():
        w = CellPixel(*v)
        require(ci[x, y] == w and ci.get(x, y) == w and ci.get((x, y)) == w and d[x, y] == w and int(s[x, y]) == int(w), 'pixel', (x, y), ci[x, y], d[x, y], w)
    return W * H > 3

def maps(c):
    im = gen(c); W, H = len(im), len(im[0])
    corner = c.pick([Line, Line, Vertex]); edge = c.pick([1, 0, 7, .5, -2.25]); sc = c.pick([1, .25])
    c.note('\n'.join(''.join('.#'[im[x][y]] for x in range(W)) for y in range(H)), corner)
    a = numpy.array([[edge if im[x][y] else edge + (1 + (x + y) % 2) * sc for y in range(H)] for x in range(W)], numpy.float32)
    try: m = GeoMap(vigra.taggedView(a, 'xy'), edge, corner) if c.p(1, 2) or corner == Vertex else GeoMap(vigra.taggedView(a, 'xy'), edge)
    except RuntimeError as e:
        require('must be thinned further' in str(e), 'construction failed', e); raise Discard()
    # a node that encloses other cells is outside the domain (see P23)
    px = cells(m)
    for (t, l), w in px.items():
        if t == 'Vertex' and len(w) > 3: raise Discard()
    s0 = check(m, im)
    c.classify('holes', any(len(f.contours) > 1 for f in m.faces if f.label))
    if c.p(1, 3):
        ci = CellImage(m.cellImage.serialize()) if c.p(1, 2) else m.cellImage
        m2 = quietly(lambda: GeoMap(ci))
        require(check(m2) == s0, 'map imported from the cell image differs')
        if c.p(1, 2): m = m2
    nontrivial = len(m.faces) >= 3 or len(m.edges) >= 4
    fat = set()
    for _ in range(c.u(6)):
        darts = []
        for n in m.nodes:
            d = GeoMap.DartTraverser(n.anchor)
            while True:
                darts.append(GeoMap.DartTraverser(d))
                if d.isSingular(): break
                d.nextSigma()
                if d == n.anchor: break
        if not darts: break
        d = c.pick(darts); before = check(m, fat=fat)
        n = d.startNodeLabel()
        after = dict(before)
        def drop(*keys):
            for k in keys: after.pop(k, None)
        if d.isSingular():
            f = d.leftFaceLabel()
            c.note('removeIsolatedNode', n)
            r = m.removeIsolatedNode(d)
            require(r.label == f, 'removeIsolatedNode returned', r.label)
            drop(('Vertex', n), ('deg', n)); after['Region', f] |= before['Vertex', n]; after['contours', f] -= 1
        else:
            e, l, r = d.edgeLabel(), d.leftFaceLabel(), d.rightFaceLabel()
            q = GeoMap.DartTraverser(d); q.nextSigma()
            if d.startNode().degree == 2 and q.edgeLabel() != e and c.p(1, 2):
                e2 = q.edgeLabel()
                o = [q.endNodeLabel(), d.endNodeLabel()]
                c.note('mergeEdges', e, e2)
                res = m.mergeEdges(d); s = res.label; x = e + e2 - s
                require(s in (e, e2), 'mergeEdges returned', s)
                if len(before['Vertex', n]) > 1 or e in fat or e2 in fat: fat.add(s)
                require(not m.edges[x].initialized() and not m.nodes[n].initialized(), 'merged edge/node still there')
                after['Line', s] = before['Line', e] | before['Line', e2] | before['Vertex', n]
                after['ends', s] = tuple(sorted(o))
                drop(('Line', x), ('ends', x), ('sides', x), ('Vertex', n), ('deg', n))
            elif l == r:
                c.note('removeBridge', e)
                ends = before['ends', e]
                s = m.removeBridge(d).label
                require(s == l, 'removeBridge returned', s)
                after['Region', l] |= before['Line', e]; drop(('Line', e), ('ends', e), ('sides', e))
                for k in ends: after['deg', k] -= 1
                after['contours', l] += 1
            else:
                c.note('mergeFaces', e, l, r)
                ends = before['ends', e]
                s = m.mergeFaces(d).label; x = l + r - s
                require(s in (l, r), 'mergeFaces returned', s)
                require(x != 0, 'the infinite face was merged away') if 0 in (l, r) else None
                after['Region', s] = before['Region', l] | before['Region', r] | before['Line', e]
                after['contours', s] = before['contours', l] + before['contours', r] - 1
                drop(('Region', x), ('contours', x), ('Line', e), ('ends', e), ('sides', e))
                for k in ends: after['deg', k] -= 1
                for k in list(after):
                    if k[0] == 'sides': after[k] = tuple(sorted(s if v == x else v for v in after[k]))
        after = {k: v for k, v in after.items() if k[0] != 'deg' or v}
        got = check(m, fat=fat)
        require(got == after, 'after the operation:', {k: (got.get(k), after.get(k)) for k in set(got) | set(after) if got.get(k) != after.get(k)})
    return nontrivial

@prop('P35', 'at least 3 faces or 4 edges (maps), more than three pixels (cell images)')
def p35(c):
    f = pixels if c.u(4) == 0 else maps
    c.classify(f.__name__)
    c.nontrivial(f(c))

if __name__ == '__main__':
    sys.exit(main())
