"""P21, P22, P32: the Python algorithms of maputils"""
import copy, os, sys, io, contextlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pygen import *
from collections import Counter
import maputils, flag_constants
ALLP = flag_constants.ALL_PROTECTION

@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try: yield
    finally: sys.stdout, sys.stderr = o, e

def segs(m, labels=None):
    r = Counter()
    for e in m.edgeIter():
        if labels is not None and e.label() not in labels: continue
        p = [tuple(x) for x in e]
        for a, b in zip(p, p[1:]): r[tuple(sorted((a, b)))] += 1
    return r

def isolated(m): return {tuple(n.position()) for n in m.nodeIter() if n.isIsolated()}

def consistent(m):
    require(m.checkConsistency(), 'checkConsistency() failed')
    require(maputils.checkCachedPropertyConsistency(m), 'checkCachedPropertyConsistency() failed')

def partition(m, grid):
    """face label at every sampling point"""
    return [m.faceAt(p).label() for p in grid]
def sampling(g):
    return [(x / 2 + .2317182818, y / 2 + .1719265359) for x in range(-1, 2 * g.w) for y in range(-1, 2 * g.h)]
def same_partition(a, b):
    f, r = {}, {}
    return all(f.setdefault(x, y) == y and r.setdefault(y, x) == x for x, y in zip(a, b))

def adjacency(m):
    adj = defaultdict(set)
    for e in m.edgeIter():
        l, r = e.leftFaceLabel(), e.rightFaceLabel()
        if l != r: adj[l].add(r); adj[r].add(l)
    return adj

class UF:
    def __init__(self, items): self.p = {i: i for i in items}
    def __getitem__(self, i):
        while self.p[i] != i: i = self.p[i]
        return i
    def join(self, a, b):
        a, b = self[a], self[b]
        if a == b: return False
        self.p[max(a, b)] = min(a, b); return True

def random_flags(c, m, p=3):
    for e in m.edgeIter():
        if c.p(1, p): e.setFlag(c.pick([1, 2, 4, 8, 16, 0x100, 0x100]))

class Ops:
    """counts elementary operations"""
    def __init__(self, m):
        self.iso, self.k = len(isolated(m)), Counter()
        def inc(what):
            def f(*a): self.k[what] += 1
            return f
        self.cbs = [m.addMergeFacesCallbacks(None, inc('faces')), m.addRemoveBridgeCallbacks(None, inc('bridge')), m.addMergeEdgesCallbacks(None, inc('edges'))]
    n = property(lambda self: sum(self.k.values()))

# ---------------------------------------------------------------------------------------------------- P21

def cruft(c, g, m):
    what = c.u(16); checks = c.p(1, 3)
    random_flags(c, m)
    prot = c.p(1, 2)
    if prot: m.ep = geomap.EdgeProtection(m)
    c.note('removeCruft', what, checks, 'protection', prot, {e.label(): e.flags() for e in m.edgeIter()})
    kept = {e.label() for e in m.edgeIter() if prot and e.flag(ALLP)}
    merge = {e.label() for e in m.edgeIter() if not e.isBridge() and e.label() not in kept}
    bridge = {e.label() for e in m.edgeIter() if e.isBridge() and e.label() not in kept}
    all_ = {e.label() for e in m.edgeIter()}
    before, iso, nn, ne, nf = segs(m), isolated(m), m.nodeCount, m.edgeCount, m.faceCount
    keepsegs = segs(m, kept)
    count = Ops(m)
    with quiet(): r = maputils.removeCruft(m, what, checks)
    require(r is not False, 'removeCruft found an inconsistency')
    after = segs(m)
    if not what & 12: require(after == before, 'edges changed', before - after, after - before)
    require(not (after - before), 'edges appeared', after - before)
    require(not (keepsegs - after), 'protected edges were removed', keepsegs - after)
    for e in m.edgeIter():
        br, pr = e.isBridge(), prot and e.flag(ALLP)
        if what & 8 and not br: require(pr, 'edge', e.label(), 'between two faces left')
        if what & 4 and br: require(pr, 'bridge', e.label(), 'left')
    if what & 2:
        for n in m.nodeIter():
            if n.hasDegree(2) and not n.anchor().edge().isLoop():
                es = {d.edge().flags() for d in n.anchor().sigmaOrbit()}
                require(prot and len(es) > 1, 'node of degree 2 left:', n.label())
    if what & 1: require(not isolated(m), 'isolated nodes left', isolated(m))
    else: require(iso <= isolated(m) or what & 12, 'isolated nodes removed')
    if not what & 1: require(iso <= isolated(m), 'isolated nodes removed')
    for bit, k in ((2, 'edges'), (4, 'bridge'), (8, 'faces')):
        require(what & bit or not count.k[k], 'merged' if bit != 4 else 'removed', k, 'although not asked for')
    ops = count.n + (len(iso) if what & 1 else 0)
    require(r == ops, 'returned', r, 'operations, performed', ops)
    consistent(m)
    return r > 0

def unprotected(c, g, m):
    random_flags(c, m, 2)
    c.note('removeUnProtectedEdges', {e.label(): e.flags() for e in m.edgeIter()})
    keep = {e.label() for e in m.edgeIter() if e.flag(ALLP)}
    ks = segs(m, keep); n = m.edgeCount - len(keep)
    flags = Counter((tuple(sorted(segs(m, {e.label()}))), e.flags()) for e in m.edgeIter() if e.label() in keep)
    cnt = Ops(m)
    with quiet(): r = maputils.removeUnProtectedEdges(m)
    require(segs(m) == ks, 'edges left', segs(m) - ks, 'missing', ks - segs(m))
    require(all(e.flag(ALLP) for e in m.edgeIter()), 'unprotected edge left')
    require(r == cnt.n + cnt.iso, 'returned', r, 'instead of', cnt.n + cnt.iso)
    consistent(m)
    return n > 0 and len(keep) > 0

def pair_cost(c, m):
    """random cost per unordered face pair"""
    cost = {}
    for e in m.edgeIter():
        k = frozenset((e.leftFaceLabel(), e.rightFaceLabel()))
        if k not in cost: cost[k] = c.u(6)
    c.note('costs', {tuple(k): v for k, v in cost.items()})
    return cost

def best_neighbor(c, g, m):
    random_flags(c, m)
    cost = pair_cost(c, m)
    cands = []
    for f in m.faceIter():
        ds = [d for d in darts(m) if m.dart(d).leftFaceLabel() == f.label() and not m.dart(d).edge().flag(ALLP)]
        if ds and any(m.dart(d).rightFaceLabel() != f.label() for d in ds): cands.append(f.label())
    if not cands: return False
    l = c.pick(cands)
    c.note('mergeFaceToBestNeighbor', l, {e.label(): e.flags() for e in m.edgeIter()})
    def measure(d):
        k = frozenset((d.leftFaceLabel(), d.rightFaceLabel()))
        return cost[k] if len(k) == 2 else 1000
    opts = {m.dart(d).rightFaceLabel() for d in darts(m) if m.dart(d).leftFaceLabel() == l and m.dart(d).rightFaceLabel() != l and not m.dart(d).edge().flag(ALLP)}
    best = min(cost[frozenset((l, o))] for o in opts)
    good = {o for o in opts if cost[frozenset((l, o))] == best}
    before, grid = segs(m), sampling(g)
    pt = partition(m, grid); faces = {f.label() for f in m.faceIter()}
    common = {o: {e.label() for e in m.edgeIter() if {e.leftFaceLabel(), e.rightFaceLabel()} == {l, o}} for o in good}
    cs = {o: segs(m, common[o]) for o in good}
    blocked = {o for o in good if any(m.edge(x).flag(ALLP) for x in common[o])}
    st = snap(m)
    s = maputils.mergeFaceToBestNeighbor(m.face(l), measure)
    if s is None:
        require(blocked, 'not merged though no common edge is protected'); same(snap(m), st, 'failed, but changed the map:')
        c.classify('blocked'); return False
    good -= blocked
    gone = faces - {f.label() for f in m.faceIter()}
    require(len(gone) == 1, 'faces removed', gone)
    other = (gone | {s.label()}) - {l}
    require(l in gone | {s.label()} and len(other) == 1 and other <= good, 'face', l, 'merged: gone', gone, 'survivor', s.label(), 'instead of neighbor', good)
    o = other.pop()
    require(segs(m) == before - cs[o], 'edges removed', before - segs(m), 'instead of', cs[o])
    require(same_partition([s.label() if x in (l, o) else x for x in pt], partition(m, grid)), 'regions differ')
    consistent(m)
    return True

def small_regions(c, g, m):
    random_flags(c, m)
    thr = c.pick([1, 2, 4, .5, 8, 16]); pix = m.hasLabelImage() and c.p(1, 3)
    usecost = c.p(2, 3)
    key = {}
    def pref(l):  # a fixed random preference per face label
        return key[l]
    for f in m.faceIter(): key[f.label()] = c.u(5)
    c.note('removeSmallRegions', thr, 'pixels' if pix else '', {e.label(): e.flags() for e in m.edgeIter()}, key if usecost else '')
    size = lambda f: f.pixelArea() if pix else f.area()
    n0, before = m.faceCount, segs(m)
    bad = []
    def pre(d):
        l, r = d.leftFace(), d.rightFace()
        ok = False
        for a, b in ((l, r), (r, l)):
            if a.label() == 0 or size(a) >= thr: continue
            opts = mergeable(m, a.label())
            if b.label() in opts and (not usecost or key[b.label()] == min(key[o] for o in opts)): ok = True
        if not ok: bad.append((d.label(), l.label(), r.label(), size(l), size(r)))
        return True
    cb = m.addMergeFacesCallbacks(pre, None)
    # the edges of one pair of faces are removed one by one: look only at the first one
    def measure(d): return key[d.rightFaceLabel()]
    kw = dict(minPixelArea=thr) if pix else dict(minArea=thr)
    with quiet(): r = maputils.removeSmallRegions(m, costMeasure=measure if usecost else None, **kw)
    require(not bad, 'merged large faces or the wrong neighbor: (dart, left, right, sizes)', bad)
    require(r == n0 - m.faceCount, 'returned', r, 'but', n0 - m.faceCount, 'faces were removed')
    for f in m.faceIter(True):
        if size(f) < thr:
            require(not mergeable(m, f.label()), 'small face', f.label(), 'left though it could be merged with', mergeable(m, f.label()))
    require(not (segs(m) - before), 'edges appeared')
    consistent(m)
    return r > 0

def maputils_contour(m, l):
    return [m.dart(d) for d in darts(m) if m.dart(d).leftFaceLabel() == l]

def mergeable(m, l):
    """neighbors all of whose common edges with face l are unprotected"""
    ds = [d for d in maputils_contour(m, l) if d.rightFaceLabel() != l]
    return {d.rightFaceLabel() for d in ds} - {d.rightFaceLabel() for d in ds if d.edge().flag(ALLP)}

def by_label(c, g, m):
    fs = [f.label() for f in m.faceIter()]
    a, b = c.pick(fs), c.pick(fs)
    if a == b: return False
    m2 = c.p(1, 2)
    c.note('mergeFacesByLabel', a, b, m2)
    common = {e.label() for e in m.edgeIter() if {e.leftFaceLabel(), e.rightFaceLabel()} == {a, b}}
    d = maputils.findCommonDart(m.face(a), m.face(b))
    require((d is None) == (not common), 'findCommonDart', d, common)
    if d is not None: require(d.leftFaceLabel() == a and d.rightFaceLabel() == b, 'findCommonDart', d)
    before, cs, grid = segs(m), segs(m, common), sampling(g)
    pt, st = partition(m, grid), snap(m)
    r = maputils.mergeFacesByLabel(m, a, b, m2)
    if not common:
        require(r is None, 'merged faces without common edge'); same(snap(m), st, 'changed:')
        return False
    require(r is not None and r.label() in (a, b), 'result', r)
    require(set(fs) - {f.label() for f in m.faceIter()} == {a, b} - {r.label()}, 'faces')
    require(segs(m) == before - cs, 'edges removed', before - segs(m), 'instead of', cs)
    require([r.label() if x in (a, b) else x for x in pt] == partition(m, grid), 'regions differ')
    consistent(m)
    return True

def history(c, g, m):
    other, third = copy.copy(m), copy.copy(m)
    h = maputils.LiveHistory(m)
    n = 0
    for _ in range(1 + c.u(8)):
        op = choose_op(c, m)
        if op[0] in ('splitEdge', 'removeIsolatedNode'): continue
        c.note(op)
        if apply_op(m, op) is not None: n += 1
    if c.p(1, 3):
        with quiet(): maputils.removeCruft(m, c.pick([2, 4, 6, 8, 14]))
    rest = len(h)
    h.detachHooks()
    cut = c.u(rest + 1)
    with quiet(): r = h.replay(other, careful=c.p(1, 2))
    require(r == len(h), 'replayed', r, 'of', len(h))
    same(snap(other), snap(m), 'replaying the history', list(h), 'gives another map:')
    exec(h.commands('x'), {'x': third})
    same(snap(third), snap(m), 'executing the commands gives another map:')
    k = len(h)
    op = choose_op(c, m); apply_op(m, op)
    require(len(h) == k, 'detached history still records')
    return rest > 0

def classes(c, g, m):
    fs = [f.label() for f in m.faceIter()]
    cl = [None] * m.maxFaceLabel()
    nc = 1 + c.u(4)
    for l in fs: cl[l] = c.u(nc + 1) or None
    ign = c.p(1, 2)
    c.note('applyFaceClassification', cl, ign)
    drop = {e.label() for e in m.edgeIter() if cl[e.leftFaceLabel()] == cl[e.rightFaceLabel()] and not (ign and cl[e.leftFaceLabel()] is None)}
    uf = UF(fs)
    for e in m.edgeIter():
        if e.label() in drop: uf.join(e.leftFaceLabel(), e.rightFaceLabel())
    before, ds, grid = segs(m), segs(m, drop), sampling(g)
    pt = partition(m, grid)
    cnt = Ops(m)
    with quiet(): r = maputils.applyFaceClassification(m, cl, ign)
    require(r == cnt.n + cnt.iso, 'returned', r, 'instead of', cnt.n + cnt.iso)
    require(segs(m) == before - ds, 'edges removed', before - segs(m), 'instead of', ds)
    require(same_partition([uf[x] for x in pt], partition(m, grid)), 'regions differ')
    require(len({uf[x] for x in fs}) == m.faceCount, 'face count')
    for f in m.faceIter(): require(len({cl[x] for x in fs if uf[x] == uf[f.label()]}) == 1 and f.label() in fs, 'classes')
    consistent(m)
    return 0 < len(drop) < len(before)

def kernel(c, g, m):
    if not m.hasLabelImage(): return False
    m = copy.copy(m)
    m.setHasLabelImage(False); m.setHasLabelImage(True)      # forget the merge history
    orig = copy.copy(m)
    uf = {f.label(): f.label() for f in m.faceIter()}
    for _ in range(1 + c.u(6)):
        op = choose_op(c, m)
        if op[0] == 'splitEdge': continue
        c.note(op)
        if op[0] == 'mergeFaces' or (op[0] == 'removeEdge' and not m.edge(abs(op[1])).isBridge()):
            a, b = m.dart(op[1]).leftFaceLabel(), m.dart(op[1]).rightFaceLabel()
            r = apply_op(m, op)
            for x in uf:
                if uf[x] in (a, b): uf[x] = r
        else: apply_op(m, op)
    k = maputils.extractContractionKernel(m)
    require(len(k) == m.maxFaceLabel(), 'size of the kernel')
    for l in range(len(k)):
        want = uf.get(l) or None
        require(k[l] == want, 'face', l, 'was merged into', uf.get(l), 'kernel says', k[l], 'of', k)
    with quiet(): maputils.applyFaceClassification(orig, [uf.get(l) for l in range(len(k))])
    grid = sampling(g)
    require(same_partition(partition(orig, grid), partition(m, grid)), 'applying the kernel gives other regions')
    return len(set(uf.values())) < len(uf)

@prop('P21', 'the helper removed or merged something (classification: some but not all edges removed)')
def p21(c):
    k = c.u(8)
    g, m = prepared(c, 3, maxpts=12, grid=c.p(1, 2))
    f = [cruft, unprotected, best_neighbor, small_regions, by_label, history, classes, kernel][k]
    if c.p(1, 2): geomap.mergeDegree2Nodes(m)
    c.classify(f.__name__)
    c.nontrivial(f(c, g, m))

# ---------------------------------------------------------------------------------------------------- P22

def minimax(fs, arcs, seeds):
    """arcs: (cost, a, b); -> for every face: (bottleneck cost, set of the seeds' labels reached with it)"""
    out = {}
    for s in fs:
        # Kruskal-like: raise the level until a seed is reached
        if seeds.get(s):
            out[s] = (None, {seeds[s]}); continue
        reach = {s}; level = None; got = set()
        while not got:
            border = [(c, b if a in reach else a) for c, a, b in arcs if (a in reach) != (b in reach)]
            if not border: break
            level = min(c for c, _ in border) if level is None else max(level, min(c for c, _ in border))
            grown = True
            while grown:
                grown = False
                for c, a, b in arcs:
                    if c <= level and (a in reach) != (b in reach):
                        n = b if a in reach else a
                        if n not in reach and (a in reach and not seeds.get(a) or b in reach and not seeds.get(b)):
                            reach.add(n); grown = True
            got = {seeds[x] for x in reach if seeds.get(x)}
        out[s] = (level, got)
    return out

def check_growing(m, fs, arcs, seeds, result):
    mm = minimax(fs, arcs, seeds)
    for f in fs:
        if seeds.get(f): require(result[f] == seeds[f], 'the label of seed', f, 'changed to', result[f])
        elif not mm[f][1]: require(not result[f], 'face', f, 'got label', result[f], 'but no seed is reachable')
        else: require(result[f] in mm[f][1], 'face', f, 'got label', result[f], 'instead of', mm[f][1], 'reachable at cost', mm[f][0])
    # the regions are connected via the arcs
    for lab in {result[f] for f in fs if result[f]}:
        members = [f for f in fs if result[f] == lab]
        uf = UF(members)
        for c, a, b in arcs:
            if result[a] == lab and result[b] == lab: uf.join(a, b)
        for f in members:
            require(any(uf[x] == uf[f] for x in members if seeds.get(x) == lab), 'face', f, 'is not connected to a seed with its label', lab)

def arcs_of(m, cost):
    return [(cost[e.label()], e.leftFaceLabel(), e.rightFaceLabel()) for e in m.edgeIter() if cost[e.label()] is not None and e.leftFaceLabel() != e.rightFaceLabel()]

def edge_costs(c, m, none=True):
    many = c.pick([3, 6, 1000])
    cost = [None] * m.maxEdgeLabel()
    for e in m.edgeIter():
        if not (none and c.p(1, 8)): cost[e.label()] = c.u(many)
    c.note('costs', cost)
    return cost

def mst_weight(fs, arcs):
    uf = UF(fs); w = n = 0
    for cst, a, b in sorted(arcs):
        if uf.join(a, b): w += cst; n += 1
    return w, n

def mst(c, g, m):
    cost = edge_costs(c, m)
    fs = [f.label() for f in m.faceIter()]
    arcs = arcs_of(m, cost)
    st = snap(m)
    fn = c.p(1, 3)
    with quiet(): r = maputils.minimumSpanningTree(m, (lambda d: cost[d.edgeLabel()]) if fn else cost)
    same(snap(m), st, 'minimumSpanningTree changed the map:')
    require(len(r) == len(cost), 'length')
    for l, v in enumerate(r): require(v is None or v == cost[l], 'cost of edge', l, 'changed to', v)
    uf = UF(fs); n = 0
    for e in m.edgeIter():
        if r[e.label()] is not None:
            require(uf.join(e.leftFaceLabel(), e.rightFaceLabel()), 'the tree contains a cycle with edge', e.label(), r)
            n += 1
    w, k = mst_weight(fs, arcs)
    require(n == k, 'the tree has', n, 'edges instead of', k)
    require(sum(v for v in r if v is not None) == w, 'weight', sum(v for v in r if v is not None), 'instead of', w)
    # regional minima of the tree
    with quiet(): rm = maputils.regionalMinima(m, r)
    require(len(rm) == m.maxFaceLabel(), 'length')
    want = defaultdict(set)
    inc = defaultdict(list)
    for e in m.edgeIter():
        if r[e.label()] is not None:
            inc[e.leftFaceLabel()].append(r[e.label()]); inc[e.rightFaceLabel()].append(r[e.label()])
    for e in m.edgeIter():
        v = r[e.label()]
        if v is not None and v <= min(inc[e.leftFaceLabel()] + inc[e.rightFaceLabel()]):
            want[e.leftFaceLabel()].add(e.label()); want[e.rightFaceLabel()].add(e.label())
    for f in range(len(rm)):
        require(rm[f] in want[f] if want[f] else rm[f] is None, 'regional minimum at face', f, rm[f], want[f])
    # waterfall
    tree = arcs_of(m, r)
    seeds = {f: rm[f] for f in fs}
    with quiet(): wl = maputils.waterfallLabels(m, cost, r if c.p(1, 2) else None)
    require(len(wl) == len(rm), 'length')
    check_growing(m, fs, tree, seeds, wl)
    if c.p(1, 2):
        grid = sampling(g); pt = partition(m, grid); before = segs(m)
        drop = {e.label() for e in m.edgeIter() if wl[e.leftFaceLabel()] == wl[e.rightFaceLabel()] and wl[e.leftFaceLabel()] is not None}
        ds = segs(m, drop)
        uf = UF(fs)
        for e in m.edgeIter():
            if e.label() in drop: uf.join(e.leftFaceLabel(), e.rightFaceLabel())
        with quiet(): maputils.waterfall(m, cost)
        require(segs(m) == before - ds, 'waterfall removed', before - segs(m), 'instead of', ds)
        require(same_partition([uf[x] for x in pt], partition(m, grid)), 'waterfall: regions differ')
        consistent(m)
    return n >= 2

def srg_static(c, g, m):
    cost = edge_costs(c, m)
    fs = [f.label() for f in m.faceIter()]
    seeds = {}
    init = [None] * m.maxFaceLabel()
    for f in fs:
        if c.p(1, 4): seeds[f] = init[f] = 1 + c.u(3)
    c.note('seeds', seeds)
    st = snap(m); keep = list(init)
    with quiet(): r = maputils.seededRegionGrowingStatic(m, init, cost if c.p(2, 3) else (lambda d: cost[d.edgeLabel()]))
    same(snap(m), st, 'changed the map:')
    require(init == keep, 'the given labels were modified')
    check_growing(m, fs, arcs_of(m, cost), seeds, r)
    return 0 < len(seeds) < len(fs) and len(fs) > 2

class DynamicQueue(dict):
    """the interface of DynamicCostQueue: one cost per index"""
    def __init__(self, size=0): pass
    insert = setCost = dict.__setitem__
    def empty(self): return not self
    def top(self): v, i = min((v, i) for i, v in self.items()); return i, v
    def pop(self): r = self.top(); del self[r[0]]; return r

def cost_log(o):
    """the list of all merge costs of an automatic method (None if there is no such log)"""
    if not has(o, '_costLog'): return None
    o._costLog = l = []
    return l

def srg(c, g, m):
    fs = [f.label() for f in m.faceIter()]
    adj = adjacency(m)
    seeds = [f for f in fs if c.p(1, 3)]
    if not seeds or not any(adj[f] - set(seeds) for f in seeds): return False
    pairs = [(f, s) for f in fs if f not in seeds for s in seeds]
    cost = dict(zip(pairs, c.shuffled(range(len(pairs))))) if len(pairs) < 60 else {p: i * 7919 % 10007 for i, p in enumerate(pairs)}
    stupid, dynamic = c.p(1, 3), c.p(1, 3)
    c.note('seeds', seeds, 'costs', cost, 'stupidInit', stupid, 'dynamic', dynamic)
    for f in seeds: m.face(f).setFlag(flag_constants.SRG_SEED)
    owner = {f: f for f in seeds}        # label of a grown face -> its seed
    member = {f: f for f in seeds}       # original face -> seed
    pend = []
    def pre(d): pend.append((d.leftFaceLabel(), d.rightFaceLabel())); return True
    def post(f):
        a, b = pend[-1]
        o = owner.pop(a) if a in owner else owner.pop(b)
        owner[f.label()] = o
    cb = m.addMergeFacesCallbacks(pre, post)
    def measure(d):
        a, b = d.leftFaceLabel(), d.rightFaceLabel()
        if b in owner: a, b = b, a
        require(a in owner and b not in owner, 'cost of merging', a, b, 'requested')
        return cost[b, owner[a]]
    # the model
    import heapq
    heap, lab, done, inq, order = [], {s: s for s in seeds}, [], set(), []
    A = {f: set(adj[f]) for f in fs}
    def nb(f): return {lab[x] for x in A[f] if x in lab}
    for s in sorted(seeds):
        for f in sorted(A[s]):
            if f not in lab and not (stupid and f in inq): heapq.heappush(heap, (cost[f, s], f)); inq.add(f)
    D = {f: cost[f, s] for s in sorted(seeds) for f in A[s] if f not in lab} if dynamic else None    # the last one counts
    while D if dynamic else heap:
        if dynamic: cst, f = min((v, f) for f, v in D.items()); del D[f]
        else: cst, f = heapq.heappop(heap)
        if f in lab: continue
        s = min(nb(f), key=lambda x: cost[f, x])
        lab[f] = s; done.append(cst); order.append(f)
        for x in sorted({y for z in lab if lab[z] == s for y in A[z]}):
            if dynamic:
                if x not in lab: D[x] = cost[x, s]
            elif x not in lab and x not in inq: heapq.heappush(heap, (cost[x, s], x)); inq.add(x)
    grid = sampling(g); pt = partition(m, grid)
    with quiet():
        how = c.u(4)
        geomap.DynamicCostQueue = DynamicQueue      # no longer part of the bindings
        if how == 0: require(maputils.seededRegionGrowing(m, measure, dynamic, stupid) is None, 'return value')
        else:
            obj = maputils.SeededRegionGrowing(m, measure, dynamic=dynamic, stupidInit=stupid)
            log = cost_log(obj)
            if how == 1: obj.grow()
            elif how == 2:
                while obj.growSteps(1): pass
            else:
                ask = c.p(1, 2)
                for i, v in enumerate(done):
                    if ask: require((obj.nextLabel(), obj.nextCost()) == (order[i], v), 'next', obj.nextLabel(), obj.nextCost(), 'instead of', order[i], v)
                    k = obj.growStep(); require(obj.step() == i + 1 and k.flag(flag_constants.SRG_SEED), 'growStep()')
    if how: require(obj.step() == len(done) and log in (None, done), 'merge costs', log, 'instead of', done)
    left = {f.label() for f in m.faceIter()}
    require(left == set(owner) and len(left) == len(seeds), 'faces left', left)
    require(all(f.flag(flag_constants.SRG_SEED) and not f.flag(flag_constants.SRG_BORDER) for f in m.faceIter()), 'flags of the grown faces')
    require([lab[x] for x in pt] == [owner[x] for x in partition(m, grid)], 'regions differ: model', lab)
    consistent(m)
    return len(fs) - len(seeds) >= 2 and len(seeds) >= 2

def region_merger(c, g, m):
    cost = edge_costs(c, m)
    random_flags(c, m, 5)
    q = maputils.StandardCostQueue()
    todo = []
    for e in m.edgeIter():
        if cost[e.label()] is not None and not e.flag(ALLP): todo.append((cost[e.label()], e.label()))
    for v, l in c.shuffled(todo): q.insert(l, v)
    thr = c.u(7)
    c.note('region merger up to cost', thr, {e.label(): e.flags() for e in m.edgeIter()})
    want = sorted(x for x in todo if x[0] <= thr)
    before, ds = segs(m), segs(m, {l for _, l in want})
    pairs = {e.label(): (e.leftFaceLabel(), e.rightFaceLabel()) for e in m.edgeIter()}
    uf = UF([f.label() for f in m.faceIter()])
    for _, l in want: uf.join(*pairs[l])
    grid = sampling(g); pt = partition(m, grid)
    arm = maputils.AutomaticRegionMerger(m, None, q, completeMerge=False, updateNeighborHood=False)
    log = cost_log(arm)
    if c.p(1, 3):
        n = 0
        for v, l in want:
            require((arm.nextLabel(), arm.nextCost()) == (l, v), 'next', arm.nextLabel(), arm.nextCost(), 'instead of', l, v)
            require(arm.mergeStep(), 'mergeStep()'); n += 1
    else: n = arm.mergeToCost(thr) if c.p(1, 2) else arm.mergeSteps(len(want))
    require(n == len(want) == arm.step(), 'merged', n, 'edges instead of', len(want))
    require(log in (None, [v for v, _ in want]), 'order of the costs', log)
    require(segs(m) == before - ds, 'edges removed', before - segs(m), 'instead of', ds)
    require(same_partition([uf[x] for x in pt], partition(m, grid)), 'regions differ')
    rest = arm.merge()
    require(rest == len(todo) - len(want), 'merge() performed', rest)
    consistent(m)
    return 2 <= len(want) < len(todo)

def dynamic_merger(c, g, m):
    """costs depend on the faces and are recalculated around the surviving face"""
    random_flags(c, m, 8)
    val = {f.label(): c.u(64) for f in m.faceIter()}
    many, none = c.pick([4, 50, 1000]), c.u(8)
    c.note('values of the faces', val, 'costs up to', many, 'flags', {e.label(): e.flags() for e in m.edgeIter()})
    pend = []
    def pre(d): pend.append(val[d.leftFaceLabel()] ^ val[d.rightFaceLabel()] * 3); return True
    def post(f): val[f.label()] = pend.pop() % 64
    cb = m.addMergeFacesCallbacks(pre, post)
    def mcm(d):
        a, b = sorted((val[d.leftFaceLabel()], val[d.rightFaceLabel()]))
        h = (a * 37 + b * 101 + a * b * 7) % 1009
        return None if h % 8 == 1 and none else h % many
    complete, D = c.p(3, 4), {}
    for e in m.edgeIter():
        v = mcm(e.dart())
        if not e.flag(ALLP) and v is not None: D[e.label()] = v
    q = DynamicQueue(); thr = None
    if c.p(1, 3):
        thr, log = c.u(many), []; geomap.DynamicCostQueue = DynamicQueue; complete = True
        if c.p(1, 2): arm = maputils.AutomaticRegionMerger(m, mcm)
        else: arm = maputils.AutomaticRegionMerger(m, mcm, None, True)
        need(arm, '_queue'); q = arm._queue; require(dict(q) == D, 'initial costs', dict(q), D)
        n, r = maputils.thresholdMergeCost(m, mcm, thr, log) if c.p(1, 2) else maputils.thresholdMergeCost(m, mcm, thr, log, q)
        require(n == len(log) and all(v <= thr for v in log), 'thresholdMergeCost', n, log)
        left = {e.label(): mcm(e.dart()) for e in m.edgeIter() if not e.flag(ALLP)}
        require(r.empty() or r.top()[1] > thr, 'costs left', dict(r), thr)
        # an edge that still is cheap enough must have been refused: its faces have another, protected edge in common
        for l, v in left.items():
            e = m.edge(l)
            if l in r: require(v is None or r[l] == v, 'outdated cost of edge', l, r[l], v)
            elif v is not None and v <= thr:
                fs = {e.leftFaceLabel(), e.rightFaceLabel()}
                require(len(fs) == 2 and any(x.flag(ALLP) and {x.leftFaceLabel(), x.rightFaceLabel()} == fs for x in m.edgeIter()), 'edge', l, 'with cost', v, 'was not removed')
        consistent(m)
        c.classify('thresholdMergeCost'); return n >= 2
    for l in c.shuffled(list(D)): q.insert(l, D[l])
    arm = maputils.AutomaticRegionMerger(m, mcm, q, complete); log = cost_log(arm)
    want, steps = [], 0
    for _ in range(c.u(12) + 1):
        if not D: break
        require(arm.nextCost() == min(D.values()), 'nextCost()', arm.nextCost(), min(D.values()))
        v, l = min((v, l) for l, v in D.items()); del D[l]
        e = m.edge(l); drop = None; old = segs(m); nf = m.faceCount
        if e:
            fs = {e.leftFaceLabel(), e.rightFaceLabel()}
            common = {x.label() for x in m.edgeIter() if {x.leftFaceLabel(), x.rightFaceLabel()} == fs}
            if len(fs) == 1 or not complete: drop = {l}
            elif not any(m.edge(x).flag(ALLP) for x in common): drop = common
            gone = segs(m, drop) if drop else None
        s = arm.mergeStep()
        c.note('step: edge', l, 'at cost', v)
        require((s is not None) == bool(drop), 'mergeStep() returned', s, 'for edge', l)
        if drop:
            want.append(v); steps += 1
            require(segs(m) == old - gone and m.faceCount == nf - len(fs) + 1 and s.label() in fs, 'merging at edge', l)
            if len(fs) == 2:
                for x in m.edgeIter():
                    if s.label() in (x.leftFaceLabel(), x.rightFaceLabel()) and not x.flag(ALLP):
                        w = mcm(x.dart())
                        if w is not None: D[x.label()] = w
        else: require(segs(m) == old and m.faceCount == nf, 'a refused merge changed the map')
        require(dict(q) == D, 'costs', dict(q), 'instead of', D)
        require(arm.step() == steps and log in (None, want), 'steps', arm.step(), log, want)
    consistent(m)
    return steps >= 2

@prop('P22', 'the region adjacency graph has at least two tree edges / unlabelled and labelled faces / several merges at different costs')
def p22(c):
    k = c.u(5)
    g, m = prepared(c, 2, maxpts=14, grid=c.p(2, 3))
    f = [mst, srg_static, srg, region_merger, dynamic_merger][k]
    c.classify(f.__name__)
    c.nontrivial(f(c, g, m))

# ---------------------------------------------------------------------------------------------------- P32

def traversal(c, g, m):
    random_flags(c, m)
    for f in m.faceIter():
        if c.p(1, 3): f.setFlag(c.pick([1, 2, 4, 5, 7, 0x100, flag_constants.BACKGROUND_FACE]))
    c.note('flags', {e.label(): e.flags() for e in m.edgeIter()}, {f.label(): f.flags() & ~INTERNAL for f in m.faceIter()})
    adj = adjacency(m)
    fs = [f.label() for f in m.faceIter()]
    # connected components of the graph
    uf = UF([n.label() for n in m.nodeIter()])
    for e in m.edgeIter(): uf.join(e.startNodeLabel(), e.endNodeLabel())
    for f in m.faceIter():
        l = f.label()
        ds = [d.label() for d in maputils.contourDarts(f)]
        require(sorted(ds) == sorted(d.label() for d in maputils_contour(m, l)), 'contourDarts of face', l, ds)
        nb = list(maputils.neighborFaces(f))
        require(sorted(d.rightFaceLabel() for d in nb) == sorted(adj[l]) and all(d.leftFaceLabel() == l for d in nb), 'neighborFaces of', l, [d.label() for d in nb], adj[l])
        for h in f.holeContours():
            comp = uf[h.startNodeLabel()]
            want = sorted(x for x in fs if x and x != l and uf[m.face(x).contour().startNodeLabel()] == comp)
            got = maputils.holeComponent(h)
            require(sorted(x.label() for x in got) == want, 'holeComponent', h.label(), [x.label() for x in got], want)
            ext = [x.label() for x in maputils.holeComponent(h, True)]
            require(ext[0] == l and sorted(ext[1:]) == want, 'holeComponent with exterior', ext)
    B = flag_constants.BORDER_PROTECTION
    border = [e.label() for e in m.edgeIter() if e.flag(B)]
    require([e.label() for e in maputils.nonBorderEdges(m)] == [e.label() for e in m.edgeIter() if e.label() not in border], 'nonBorderEdges')
    require([f.label() for f in maputils.nonBackgroundFaces(m)] == [l for l in fs if not m.face(l).flag(flag_constants.BACKGROUND_FACE)], 'nonBackgroundFaces')
    for n in m.nodeIter():
        require(bool(maputils.nodeAtBorder(n)) == any(e.flag(B) and n.label() in (e.startNodeLabel(), e.endNodeLabel()) for e in m.edgeIter()), 'nodeAtBorder', n.label())
    require([n.label() for n in maputils.degree2Nodes(m)] == [n.label() for n in m.nodeIter() if n.degree() == 2], 'degree2Nodes')
    skip = c.p(1, 2)
    r = maputils.mapValidEdges(lambda e: (e.label(), 1), m, 'x', skip)
    # (if every edge is a border edge, skipping still visits none)
    want = ['x'] * m.maxEdgeLabel()
    for e in m.edgeIter():
        if not (skip and e.label() in border): want[e.label()] = (e.label(), 1)
    require(r == want, 'mapValidEdges', r, want)
    r = maputils.mapValidFaces(lambda f: f.label() + 1, m)
    require(r == [l + 1 if l in fs else None for l in range(m.maxFaceLabel())], 'mapValidFaces', r)
    r = maputils.mapValidDarts(lambda d: d.label(), m, -5)
    require(r == [l if m.edge(l) is not None else -5 for l in range(m.maxEdgeLabel())], 'mapValidDarts', r)
    # face classes
    mode = c.u(3); si = c.p(1, 2)
    arg = [None, c.pick([7, 0x0fffffff, 4]), c.pick([[1, 2, 4], [4, 6], [7, 5, 1], [0x100]])][mode]
    flagsof = {l: m.face(l).flags() & 0x0fffffff for l in fs}
    use = [l for l in fs if l or not si]
    r = maputils.extractFaceClasses(m, arg, si)
    mask = 0x0fffffff if arg is None else arg
    keys = sorted(arg if mode == 2 else {flagsof[l] & mask for l in use}, reverse=True)
    want = {k: [] for k in keys}
    for l in use:
        for k in keys:
            if k and flagsof[l] & k == k: want[k].append(l); break
    require({k: [f.label() for f in v] for k, v in r.items()} == want, 'extractFaceClasses', arg, si, lambda: {k: [f.label() for f in v] for k, v in r.items()}, want)
    # points in faces
    for f in m.faceIter(True):
        try: p = maputils.pointInFace(f)
        except (AttributeError, TypeError): continue       # the fallback for small faces does not work with these vigra versions
        require(f.contains(p), 'pointInFace', f.label(), p)
        c.classify('pointInFace')
    # protection
    if c.p(1, 2):
        P, C = flag_constants.PROTECTED_FACE, flag_constants.CONTOUR_PROTECTION
        for e in m.edgeIter(): e.setFlag(C, False)
        for f in m.faceIter(): f.setFlag(P, False)
        prot = set()
        for _ in range(1 + c.u(4)):
            l, on = c.pick(fs), c.p(2, 3)
            c.note('protectFace', l, on)
            maputils.protectFace(m.face(l), on)
            prot.add(l) if on else prot.discard(l)
            for e in m.edgeIter():
                require(bool(e.flag(C)) == bool({e.leftFaceLabel(), e.rightFaceLabel()} & prot), 'contour protection of edge', e.label(), 'with protected faces', prot)
            require({f.label() for f in m.faceIter() if f.flag(P)} == prot, 'protected faces')
    return m.edgeCount >= 3 and len(fs) >= 3

def isomorphic(m, n, nodes, edges, dropped=(), tr=lambda p: p, sigma=True, extra=0):
    live = [e.label() for e in m.edgeIter() if e.label() not in dropped]
    require(n.edgeCount == len(live) + extra, 'edge count', n.edgeCount, len(live))
    for l in live:
        e, f = m.edge(l), edges[l]
        require(f is not None, 'edge', l, 'was not copied')
        require([tuple(p) for p in f] == [tr(tuple(p)) for p in e], 'geometry of edge', l)
        require(f.flags() == e.flags(), 'flags of edge', l, f.flags(), e.flags())
        require(f.startNodeLabel() == nodes[e.startNodeLabel()].label() and f.endNodeLabel() == nodes[e.endNodeLabel()].label(), 'end nodes of edge', l)
    for l in dropped: require(edges[l] is None, 'dropped edge', l)
    for x in m.nodeIter():
        y = nodes[x.label()]
        require(y is not None and tuple(y.position()) == tr(tuple(x.position())), 'node', x.label(), y and y.position())
    require(n.nodeCount == m.nodeCount + 2 * extra, 'node count', n.nodeCount, m.nodeCount)
    if sigma:
        for l in live:
            for d in (l, -l):
                s = m.dart(d).nextSigma()
                while s.edgeLabel() in dropped: s.nextSigma()
                t = n.dart(edges[l].label() * (1 if d > 0 else -1)).nextSigma()
                want = edges[s.edgeLabel()].label() * (1 if s.label() > 0 else -1)
                require(t.label() == want, 'sigma successor of dart', d, 'is', t.label(), 'instead of', want)

def copies(c, g, m):
    random_flags(c, m)
    for f in m.faceIter():
        if c.p(1, 3): f.setFlag(c.pick([1, 2, 4, 0x100]))
    st = snap(m)
    mode = c.u(4)
    pos = [tuple(x.position()) for x in m.nodeIter()]
    if mode == 3 and any((a[0]-b[0])**2 + (a[1]-b[1])**2 < .002 for i, a in enumerate(pos) for b in pos[:i]): mode = 0   # mapFromEdges identifies ends that are closer than 0.032
    dx, dy = (c.u(3), c.u(3)) if c.p(1, 2) else (0, 0)
    tr = lambda p: (p[0] + dx, p[1] + dy)
    et = (lambda e: geomap.Polygon([tr(tuple(p)) for p in e])) if dx or dy or c.p(1, 3) else None
    c.note('copy mode', mode, 'transform', et and (dx, dy), {e.label(): e.flags() for e in m.edgeIter()})
    if mode == 0:
        if et and any(n.isIsolated() for n in m.nodeIter()): et = None; dx = dy = 0
        n = maputils.copyMap(m, et)
        require(n.mapInitialized() and n.hasLabelImage() == m.hasLabelImage(), 'initialization')
        require(tuple(n.imageSize()) == tuple(m.imageSize()), 'size')
        require(segs(n) == Counter({tuple(sorted((tr(a), tr(b)))): k for (a, b), k in segs(m).items()}), 'edges differ')
        require(n.faceCount == m.faceCount and n.nodeCount == m.nodeCount, 'counts')
        for p in sampling(g):
            a, b = m.faceAt(p), n.faceAt(tr(p))
            require(a.flags() & 0x0fffffff == b.flags() & 0x0fffffff, 'flags of the face at', p, a.flags(), b.flags())
            require(abs(a.area() - b.area()) < 1e-9, 'area of the face at', p)
        require(n.maxEdgeLabel() == n.edgeCount + 1 and n.maxNodeLabel() == n.nodeCount, 'labels not compressed')
        if n.edgeCount:
            by = {tuple(tuple(p) for p in e): e for e in n.edgeIter()}
            isomorphic(m, n, {x.label(): n.nearestNode(tr(tuple(x.position()))) for x in m.nodeIter()},
                       {e.label(): by.get(tuple(tr(tuple(p)) for p in e)) for e in m.edgeIter()}, tr=tr)
        consistent(n)
    elif mode == 1:
        drop = set()
        if c.p(1, 2) and not et: 
            drop = {e.label() for e in m.edgeIter() if c.p(1, 3)}
        tf = et or ((lambda e: None if e.label() in drop else e) if drop else None)
        if et and any(n.isIsolated() for n in m.nodeIter()): tf = et = None; dx = dy = 0
        c.note('dropped', drop)
        dest = None; given = c.p(1, 3); old = None
        if given:           # into an existing map that may have contents outside the copied area
            dest = geomap.GeoMap(geomap.Size2D(g.w + 60, g.h + 60))
            if c.p(1, 2):
                a, b = dest.addNode((g.w + 20, 5)), dest.addNode((g.w + 30, 9))
                old = [(g.w + 20, 5), (g.w + 25, 12), (g.w + 30, 9)]
                dest.addEdge(a, b, old)
            if c.p(1, 2): dest.sortEdgesDirectly()
            wassorted = dest.edgesSorted()
        n, nodes, edges = maputils.copyMapContents(m, dest, tf)
        if given:
            require(n is dest and n.edgesSorted() == wassorted and not n.mapInitialized(), 'not the given map')
            require(not old or [tuple(p) for p in n.edge(1)] == old and n.edge(1).label() not in [e and e.label() for e in edges], 'previous contents lost')
            require(n.edgeCount == m.edgeCount - len(drop) + bool(old), 'number of edges in the given map')
        else:
            require(n.edgesSorted() and not n.mapInitialized(), 'state of the copy')
            require(tuple(n.imageSize()) == tuple(m.imageSize()), 'size of the new map')
        isomorphic(m, n, nodes, edges, drop, tr, not given or wassorted, bool(old))
        n.initializeMap(False)
        if not drop and not old: require(n.faceCount == m.faceCount, 'faces')
        require(n.checkConsistency(), 'inconsistent')
    elif mode == 2:
        u = g.build(c.u(2))             # a graph, sorted or not
        n, nodes, edges = maputils.copyMapContents(u)
        require(n.edgesSorted() == u.edgesSorted(), 'sorted')
        isomorphic(u, n, nodes, edges)
    else:
        el = [[tuple(p) for p in e] for e in m.edgeIter()]
        n = maputils.mapFromEdges([geomap.Polygon(e) if c.p(1, 2) else e for e in el], geomap.Size2D(g.w, g.h))
        require(not n.edgesSorted() and not n.mapInitialized(), 'state')
        require([[tuple(p) for p in e] for e in n.edgeIter()] == el, 'edges')
        pos = {e[0] for e in el} | {e[-1] for e in el}
        require(sorted(tuple(x.position()) for x in n.nodeIter()) == sorted(pos), 'nodes')
        for e in n.edgeIter():
            require(tuple(e.startNode().position()) == tuple(e[0]) and tuple(e.endNode().position()) == tuple(e[-1]), 'end nodes')
        n.initializeMap(False)
        require(n.faceCount == m.faceCount, 'faces')
    same(snap(m), st, 'the source changed:')
    return m.edgeCount >= 3

@prop('P32', 'the map has at least three edges (and three faces for the traversal functions)')
def p32(c):
    k = c.u(2)
    g, m = prepared(c, 3, maxpts=12, grid=c.p(1, 3))
    f = [traversal, copies][k]
    c.classify(f.__name__)
    c.nontrivial(f(c, g, m))

if __name__ == '__main__':
    sys.exit(main())
