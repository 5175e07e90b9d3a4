"""P40: dart paths and bundles of parallel edges through the Python interface
P41: subpixel watersheds from Python, from the image to the map"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from py_utils import *
import math, dartpath
BORDER = flag_constants.BORDER_PROTECTION

# ------------------------------------------------------------------ P40: paths
def labels(p): return [d.label() for d in p]

def paths(c):
    g, m = prepared(c, labelImage=False)
    ds = list(darts(m))
    if not ds: raise Discard()
    for e in m.edgeIter():
        if c.p(1, 6): e.setFlag(BORDER)
    before = snap(m)
    # a random connected path
    d = c.pick(ds); walk = [d]
    for _ in range(c.u(6)):
        o = orbit(m, -walk[-1], 'nextSigma'); walk.append(c.pick(o))
    c.note('path', walk)
    P = dartpath.Path(m.dart(x) for x in walk)
    pts = [list(map(tuple, m.edge(abs(x)))) for x in walk]
    pts = [p if x > 0 else p[::-1] for x, p in zip(walk, pts)]
    want = pts[0] + [q for p in pts[1:] for q in p[1:]]
    require([tuple(p) for p in P.points()] == want, 'points()', list(P.points()), 'instead of', want)
    poly = P.polygon()
    require(type(poly) is geomap.Polygon and [tuple(p) for p in poly] == want, 'polygon()', list(poly))
    L = sum(math.dist(a, b) for a, b in zip(want, want[1:]))
    require(abs(P.length() - L) < 1e-9 and abs(poly.length() - L) < 1e-9, 'length()', P.length(), 'instead of', L)
    k = c.u(len(walk) + 1)
    Q = dartpath.Path(m.dart(x) for x in walk[:k]) + dartpath.Path(m.dart(x) for x in walk[k:])
    require(isinstance(Q, dartpath.Path) and labels(Q) == walk, 'path + path', labels(Q))
    Q = dartpath.Path(m.dart(x) for x in walk[:-1]); n = len(Q); R = Q + m.dart(walk[-1])
    require(isinstance(R, dartpath.Path) and labels(R) == walk and len(Q) == n, 'path + dart', labels(R))
    P.reverse()
    require(labels(P) == [-x for x in walk[::-1]], 'reverse()', labels(P))
    require([tuple(p) for p in P.points()] == want[::-1], 'points() of the reversed path')
    P.reverse(); require(labels(P) == walk, 'reverse() twice', labels(P))
    # tangent lists are composed with cumulated arc lengths
    ang = lambda x: abs(x) % 5 * .125
    got = P.tangents(lambda d: ([(.25 * d.edge().length(), ang(d.label())), (.75 * d.edge().length(), 0.0)], d.edge().length()))
    w, off = [], 0.0
    for x in walk: l = m.edge(abs(x)).length(); w += [(off + .25 * l, ang(x)), (off + .75 * l, 0.0)]; off += l
    require(len(got) == len(w) and all(abs(p - q) < 1e-9 and abs(a - b) < 1e-9 for (p, a), (q, b) in zip(got, w)), 'tangents()', got, 'instead of', w)
    # contours
    C = dartpath.contour(m.dart(d))
    require(isinstance(C, dartpath.Path) and labels(C) == orbit(m, d, 'nextPhi'), 'contour()', labels(C))
    # comparison
    other = list(walk)
    for _ in range(c.u(3)):
        if other and c.p(1, 2): del other[c.u(len(other))]
        else: other.insert(c.u(len(other) + 1), c.pick(ds))
    s = hasattr(dartpath, '_pathString') and hasattr(dartpath, '_pathDecode') and dartpath._pathString(walk)
    if s: require(dartpath._pathDecode(s) == walk and dartpath._pathString([m.dart(x) for x in walk]) == s, 'encoding of paths', walk)
    ops = dartpath.pathCompare([m.dart(x) for x in walk] if c.p(1, 2) else walk, other)
    res, i, j = [], 0, 0
    for tag, i1, i2, j1, j2 in ops:
        require(i1 == i and j1 == j, 'pathCompare: gap in', ops); i, j = i2, j2
        require((tag == 'equal') == (walk[i1:i2] == other[j1:j2]), 'pathCompare', ops)
        res += walk[i1:i2] if tag == 'equal' else other[j1:j2]
    require(i == len(walk) and j == len(other) and res == other, 'pathCompare does not transform the first path into the second', ops)
    # enumeration
    n = 1 + c.u(4)
    def rec(p):
        if len(p) == n: yield p; return
        for x in orbit(m, -p[-1], 'nextSigma'):
            if x != -p[-1] and not m.edge(abs(x)).flag(BORDER): yield from rec(p + [x])
    want = list(rec([d]))
    if len(want) > 3000: raise Discard()
    sd = m.dart(d); A = dartpath.allContinuations(sd, n)
    require(sd.label() == d and all(isinstance(p, dartpath.Path) for p in A), 'allContinuations: types')
    require(sorted(map(labels, A)) == sorted(want), 'allContinuations(%d, %d)' % (d, n), sorted(map(labels, A)), 'instead of', sorted(want))
    same(before, snap(m), 'the map changed')
    c.classify('several continuations', len(want) > 1); c.nontrivial(len(walk) > 1 and len(want) > 1)

# ------------------------------------------------------------------ P40: bundles
def bundle(c):
    """edges with a common beginning, some of them identical"""
    n = 2 + c.u(4); L = 2 + c.u(4); dirn = c.u(4)
    angles = sorted(c.shuffled([-60, -35, -12, 20, 45, 70])[:n])
    step = c.pick([.1, .2, .3]); off = step / 2000
    def rot(x, y):
        for _ in range(dirn): x, y = -y, x
        return (20 + x, 20 + y)
    twin = c.u(n) if c.p(1, 4) else None
    items = c.shuffled(list(range(n)) + ([twin] if twin is not None else []))
    m = GeoMap([], [], geomap.Size2D(40, 40)); ctr = m.addNode(rot(0, 0)); ends, lab, dart, path = {}, defaultdict(list), {}, {}
    for i in items:
        a = math.radians(angles[i])
        p = [rot(0, 0)] + [rot(x, off * i) for x in range(1, L + 1)] + [rot(L + 4 * math.cos(a), off * i + 4 * math.sin(a))]
        path[i] = p
        if i not in ends: ends[i] = m.addNode(p[-1]).label()
        out = c.p(1, 2); q = p if out else p[::-1]
        e = m.addEdge(ctr, m.node(ends[i]), q) if out else m.addEdge(m.node(ends[i]), ctr, q)
        dart[e.label()] = e.label() if out else -e.label(); lab[i].append(e.label())
        c.note('e%d%s' % (e.label(), '' if out else ' reversed'), p)
    split = twin is None
    require(not m.edgesSorted(), 'edgesSorted() before sorting')
    u = m.sortEdgesEventually(stepDist=step, minDist=step / 50, splitEdges=split) if c.p(1, 2) else m.sortEdgesEventually(step, step / 50, split)
    require(m.edgesSorted() and not m.mapInitialized(), 'edgesSorted()')
    got = {frozenset(x) for x in u}
    want = set() if split else {frozenset(dart[l] for l in lab[twin]), frozenset(-dart[l] for l in lab[twin])}
    require(got == want and len(u) == len(want), 'unsortable groups', u, 'instead of', sorted(map(sorted, want)))
    o = orbit(m, dart[lab[0][0]], 'nextSigma')
    if twin is not None:
        k = [o.index(dart[l]) for l in lab[twin]]
        require((k[0] - k[1]) % len(o) in (1, len(o) - 1), 'identical edges are not neighbours', o); o.remove(dart[lab[twin][1]])
    require(canon(o) == canon([dart[lab[i][0]] for i in range(n - 1, -1, -1)]), 'order of the edges around the centre', o)
    c.classify('identical edges', twin is not None); c.nontrivial(n > 2)
    if not split:
        require(m._internalSplitInfo() is None, 'planned splits although splitting was not requested')
        return
    require(len(m._internalSplitInfo()) >= n, 'planned splits', m._internalSplitInfo())
    best = min(range(n), key=lambda i: abs(angles[i]))
    if c.p(2, 3):
        rank = c.shuffled(range(1, n + 1)); pref = [0.0] * m.maxEdgeLabel()
        for i in range(n): pref[lab[i][0]] = rank[i] / 8
        c.note('preferences', pref); m.setEdgePreferences(pref); best = rank.index(n); c.classify('preferences')
    m.splitParallelEdges()
    require(m.checkConsistency(), 'checkConsistency() after splitParallelEdges()')
    require(m.node(ctr.label()).degree() == 1, 'the common beginning was not merged')
    t = [tuple(p) for p in m.node(ctr.label()).anchor()]
    require(t[:L] == path[best][:L], 'the merged beginning', t, 'does not follow edge', lab[best][0], path[best])
    require(m.edgeCount + 1 == m.nodeCount and all(m.node(ends[i]).degree() == 1 for i in ends), 'ends of the edges')
    m.initializeMap(False)
    require(m.checkConsistency() and m.faceCount == 1, 'the map of a tree has', m.faceCount, 'faces')

@prop('P40', 'a path of at least two darts with several continuations, or at least three parallel edges')
def p40(c):
    if c.p(2, 5): bundle(c)
    else: paths(c)

# ------------------------------------------------------------------ P41: flow lines
def flowlines(c):
    """addFlowLinesToMap() with end points at, near or far away from nodes"""
    S = 16; nodes = [None]
    for _ in range(1 + c.u(5)):
        p = (c.i(0, 2 * S) / 2, c.i(0, 2 * S) / 2)
        if p not in nodes: nodes.append(p)
    k = len(nodes); edges = [None]
    def pt():
        if c.p(1, 3): b = c.pick(nodes[1:]); return (b[0] + c.i(-4, 4) / 8, b[1] + c.i(-4, 4) / 8)
        return (c.i(0, 2 * S) / 2, c.i(0, 2 * S) / 2)
    for _ in range(1 + c.u(5)):
        if c.p(1, 6): edges.append(None); continue
        a, b = (c.i(-1, k - 1) if c.p(1, 2) else 1 + c.u(k - 1) for _ in range(2))
        mid = [pt() for _ in range(c.u(4))]
        p = [nodes[a] if a > 0 else pt()] + mid + [nodes[b] if b > 0 else pt()]
        p = [q for i, q in enumerate(p) if i in (0, len(p) - 1) or q != p[i - 1]]
        if p[0] == p[1] or p[-1] == p[-2]: continue
        edges.append((a, b, p, c.u(len(p)), 7))
    area = c.pick([0, 0, 2])
    c.note('nodes', nodes, 'flow lines', edges, 'minLoopArea', area)
    # model
    pos = {i: p for i, p in enumerate(nodes) if p}; want, left = {}, []
    def d2(p, q): return (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2
    def attach(label, p):
        """-> node label, polyline beginning at the node"""
        if label > 0: return label, p
        near = sorted((d2(q, p[0]), l) for l, q in pos.items() if d2(q, p[0]) < .25)
        if len(near) > 1 and near[0][0] == near[1][0]: raise Discard()
        if not near:
            l = max(pos) + 1; pos[l] = p[0]; return l, p
        q = pos[near[0][1]]
        if (q[0] - p[0][0]) * (p[0][0] - p[1][0]) + (q[1] - p[0][1]) * (p[0][1] - p[1][1]) >= 0:
            return near[0][1], ([q] if q != p[0] else []) + p
        return near[0][1], [q] + p[1:]
    created = False
    for i, e in enumerate(edges):
        if not e: continue
        n0 = len(pos)
        s, p = attach(e[0], list(e[2])); t, p = attach(e[1], p[::-1]); p = p[::-1]; created |= len(pos) > n0
        if s == t and (e[0] <= 0 or e[1] <= 0 or len(p) == 2 or abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(p, p[1:])) / 2) < area): left.append(e)
        else: want[i] = (s, t, p)
    m = GeoMap(nodes, [], geomap.Size2D(S + 1, S + 1))
    given = list(edges)
    with quiet(): r = maputils.addFlowLinesToMap(edges, m, minLoopArea=area) if area else maputils.addFlowLinesToMap(edges, m)
    require(edges == given, 'the list of flow lines was changed')
    require([tuple(x) for x in r] == left, 'returned', r, 'instead of', left)
    require({n.label(): tuple(n.position()) for n in m.nodeIter()} == pos, 'nodes', [(n.label(), tuple(n.position())) for n in m.nodeIter()], 'instead of', pos)
    got = {e.label(): (e.startNodeLabel(), e.endNodeLabel(), [tuple(p) for p in e]) for e in m.edgeIter()}
    require(got == want, 'edges', got, 'instead of', want)
    require(m.checkConsistency(), 'checkConsistency()')
    c.classify('nodes added', created); c.classify('flow lines left out', bool(left))
    c.nontrivial(len(want) > 1)

def watershed_object(c):
    w, h = 9 + c.u(8), 9 + c.u(8)
    seed = c.u(1 << 16); r = numpy.random.RandomState(seed); sigma = c.pick([.8, 1.0, 1.5])
    K = c.pick([geomap.SubPixelWatersheds2, geomap.SubPixelWatersheds3, geomap.SubPixelWatersheds5])
    c.note('random image %dx%d seed %d smoothed with %g, %s' % (w, h, seed, sigma, K.__name__))
    img = vigra.filters.gaussianSmoothing(r.rand(w, h).astype(numpy.float32), sigma)
    return w, h, vigra.taggedView(numpy.asarray(img, numpy.float32), 'xy'), K

def watersheds(c):
    w, h, img, K = watershed_object(c)
    s = K(img)
    require((s.width(), s.height()) == (w, h), 'size', s.width(), s.height())
    mask = None
    if c.p(1, 3):
        mask = numpy.zeros((w, h), numpy.float32); x0, y0 = c.u(w), c.u(h); x1, y1 = x0 + 1 + c.u(w - x0), y0 + 1 + c.u(h - y0)
        mask[x0:x1, y0:y1] = 1; c.note('mask', (x0, y0, x1, y1)); s.findCriticalPoints(vigra.taggedView(mask, 'xy'))
        c.classify('masked')
    elif c.p(1, 2):
        s.findCriticalPoints()
        if c.p(1, 2): s.findCriticalPoints(); c.classify('searched twice')
    order = c.shuffled(['maxima', 'saddles', 'minima']); cp = {}
    for n in order: cp[n] = [p if p is None else tuple(p) for p in getattr(s, n)()]
    for n in cp:
        require(cp[n][0] is None and None not in cp[n][1:], n, 'has no label 0 or undefined entries')
        require([p if p is None else tuple(p) for p in getattr(s, n)()] == cp[n], n, 'changed when asked again')
        require(all(-1e-2 <= x <= w - .99 and -1e-2 <= y <= h - .99 for x, y in cp[n][1:]), n, 'outside of the image', cp[n])
    mx, sa, mi = cp['maxima'], cp['saddles'], cp['minima']
    if mask is None:
        allp = [p for n in cp for p in cp[n][1:]]; require(len(set(allp)) == len(allp), 'a critical point is reported twice')
    # the image continued smoothly (same spline order) gives the values
    siv = {geomap.SubPixelWatersheds2: vigra.sampling.SplineImageView2, geomap.SubPixelWatersheds3: vigra.sampling.SplineImageView3, geomap.SubPixelWatersheds5: vigra.sampling.SplineImageView5}[K](img)
    edges = []
    for i in range(1, len(sa)):
        a, b, p, k = s.edge(i); p = [tuple(q) for q in p]; edges.append((a, b, p, k))
        require(0 <= k < len(p) and p[k] == sa[i], 'edge(%d): point %d is not the saddle' % (i, k), p[k] if k < len(p) else None, sa[i])
        for l, q in ((a, p[0]), (b, p[-1])):
            require(l < len(mx), 'edge(%d) ends at maximum' % i, l)
            if l > 0: require(q == mx[l], 'edge(%d) does not end at maximum %d' % (i, l), q, mx[l])
        v = [siv(*q) for q in p]; tol = 2e-3 * float(img.max() - img.min())
        for seq in (v[:k + 1][::-1], v[k:]):
            require(all(y >= x - tol for x, y in zip(seq, seq[1:])), 'edge(%d) descends' % i, seq)
    vals = sorted(siv(*p) for p in sa[1:])
    if vals:
        t = vals[c.u(len(vals))] + c.pick([-1e-3, 1e-3]); c.note('threshold', t)
        E = s.edges(t); require(len(E) == len(sa) - 1, 'edges(): number', len(E))
        for i, e in enumerate(E):
            d = siv(*sa[i + 1]) - t
            if abs(d) < 1e-5: continue
            require((e is not None) == (d > 0), 'edges(%g): saddle %d with value %g' % (t, i + 1, d + t), e is None)
            if e is not None: require((e[0], e[1], [tuple(q) for q in e[2]], e[3]) == edges[i], 'edges() differs from edge(%d)' % (i + 1))
    # a map of all complete flow lines
    fl = [None] + [e + (i + 1,) if e[0] > 0 and e[1] > 0 else None for i, e in enumerate(edges)]
    m = GeoMap(mx, [], geomap.Size2D(w, h))
    with quiet(): res = maputils.addFlowLinesToMap(fl, m)
    require({e.label() for e in m.edgeIter()} == {i for i, e in enumerate(fl) if e and e not in res}, 'labels of the edges')
    for e in m.edgeIter(): require([tuple(p) for p in e] == fl[e.label()][2] and (e.startNodeLabel(), e.endNodeLabel()) == fl[e.label()][:2], 'edge', e.label(), 'is not flow line')
    require(m.checkConsistency() and m.nodeCount == len(mx) - 1, 'the graph of flow lines')
    c.nontrivial(m.edgeCount > 1)

@prop('P41', 'at least two flow lines become edges of the map')
def p41(c):
    k = c.u(7)
    if k < 5: flowlines(c)
    else: watersheds(c)

if __name__ == '__main__':
    main()
