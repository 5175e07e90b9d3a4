"""P36: edge/face statistics that follow the map (statistics.py)"""
import math, os, pickle, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from py_utils import *
import statistics as st
BORDER = flag_constants.BORDER_PROTECTION

class Siv:
    """a fixed function of the position"""
    def __getitem__(self, p): return ((p[0] * 7 + p[1] * 13) * 4) % 11 + p[0] / 64
siv = Siv()

def near(a, b): return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))

# every kind: make(c, m) -> (statistics object, model); model: {edge/face label: ...}
class Costs:
    splits = False
    def __init__(self, c, m):
        self.comb = c.p(3, 4); skip = c.p(1, 2)
        ref = {e.label(): e.label() * 1.5 + c.u(4) for e in m.edgeIter()}
        how = c.u(2)
        comb = st.mergedEdgeCostWeightedByLength if self.comb else None
        if how == 0:
            self.s = st.StaticEdgeCosts(m, lambda d: ref[d.edgeLabel()], skipBorder=skip, combiner=comb)
            self.ref = {l: None if skip and m.edge(l).flag(BORDER) else v for l, v in ref.items()}
        else:
            given = [ref.get(l) for l in range(m.maxEdgeLabel())]; self.given = list(given); self.orig = given
            self.s = st.StaticEdgeCosts(m, costs=given, combiner=comb); self.ref = ref
        c.note('StaticEdgeCosts', 'with' if self.comb else 'without', 'combiner', self.ref)
    def allowed(self, m, a, b): return self.comb and self.ref[a] is not None and self.ref[b] is not None
    def merged(self, a, b, s, la, lb):
        self.ref[s] = (self.ref[a] * la + self.ref[b] * lb) / (la + lb)
    def check(self, c, m):
        for e in m.edgeIter():
            v = self.s(e.dart() if c.p(1, 2) else e.dart().nextAlpha()); w = self.ref[e.label()]
            require((v is None) == (w is None) and (v is None or near(v, w)), 'cost of edge', e.label(), v, w)
        if hasattr(self, 'orig'): require(self.orig == self.given, "the caller's costs changed")

class Merged:
    splits = False
    def __init__(self, c, m):
        self.s = st.MergedEdges(m); self.ref = {e.label(): {e.label()} for e in m.edgeIter()}
        c.note('MergedEdges')
    def allowed(self, m, a, b): return True
    def merged(self, a, b, s, la, lb): self.ref[s] = self.ref[a] | self.ref[b]
    def check(self, c, m):
        for e in m.edgeIter():
            got = self.s[e if c.p(1, 2) else e.label()]
            require(sorted(got) == sorted(self.ref[e.label()]), 'edges merged into', e.label(), got, self.ref[e.label()])
        want = sorted(x for e in m.edgeIter() for x in self.ref[e.label()])
        require(sorted(self.s.level0Labels()) == want, 'level0Labels', self.s.level0Labels(), want)

class Indices:
    splits = True
    def __init__(self, c, m):
        self.s = st.DynamicEdgeIndices(m); self.pts = {}
        need(self.s, '_indices', '_attachHooks')
        for e in m.edgeIter():
            n = len(e)
            ind = sorted({c.i(1, n - 2) for _ in range(c.u(4))}) if n > 2 else []
            self.s._indices[e.label()].extend(ind)
            self.pts[e.label()] = [tuple(e[i]) for i in ind]
        self.s._attachHooks()
        c.note('DynamicEdgeIndices', self.pts)
    def allowed(self, m, a, b): return True
    def merged(self, a, b, s, la, lb): self.pts[s] = self.pts[a] + [p for p in self.pts[b] if p not in self.pts[a]]
    def split(self, m, old, new, seg):
        p = self.pts[old]; self.pts[old] = [x for x in p if x in [tuple(q) for q in m.edge(old)]]; self.pts[new] = [x for x in p if x in [tuple(q) for q in m.edge(new)]]
    def check(self, c, m):
        for e in m.edgeIter():
            n = len(e); a = self.s.edgeIndices(e if c.p(1, 2) else e.label()); b = self.s.dartIndices(e.dart()); r = self.s.dartIndices(e.dart().nextAlpha())
            require(a == b, 'dartIndices of the positive dart', a, b)
            require(all(0 <= i < n for i in a), 'indices', a, 'of an edge with', n, 'points')
            require({tuple(e[i]) for i in a} == set(self.pts[e.label()]) and len(a) == len(set(a)), 'points of edge', e.label(), [tuple(e[i]) for i in a], self.pts[e.label()])
            d = list(e.dart().nextAlpha())
            require({tuple(d[i]) for i in r} == set(self.pts[e.label()]) and len(r) == len(a), 'points of the negative dart of', e.label())
            x = self.s.edgeIndices(e); x.append(99); require(self.s.edgeIndices(e) == a, 'edgeIndices returns the internal list')

class Watershed:
    splits = True
    def __init__(self, c, m):
        self.pts, self.pv = {}, {}
        fl = [None] * m.maxEdgeLabel()
        for e in m.edgeIter():
            n = len(e)
            i = c.u(n - 2) + 1 if n > 2 else 0
            poly = [tuple(p) for p in e]
            if n <= 2: e.setFlag(BORDER)        # (its saddle would be a node)
            if e.flag(BORDER): self.pts[e.label()] = []; self.pv[e.label()] = None; continue
            if n > 3 and c.p(1, 4) and i > 1:    # connected to a node afterwards: the first point was added
                fl[e.label()] = (0, 1, [e[k] for k in range(1, n)], i - 1)
            else: fl[e.label()] = (1, 1, [e[k] for k in range(n)], i)
            self.pts[e.label()] = [poly[i]]; self.pv[e.label()] = siv[poly[i]]
        self.s = st.WatershedStatistics(m, fl, siv)
        self.basins = None
        if m.mapInitialized() and c.p(1, 2):
            with quiet(): self.basins = st.WatershedBasinStatistics(m, [], siv)
            self.s.setBasins(self.basins)
        c.note('WatershedStatistics', self.pts)
    def allowed(self, m, a, b):
        return m.edge(a).flag(BORDER) == m.edge(b).flag(BORDER)
    def merged(self, a, b, s, la, lb):
        self.pts[s] = self.pts[a] + [p for p in self.pts[b] if p not in self.pts[a]]
        self.pv[s] = None if self.pv[a] is None else min(self.pv[a], self.pv[b])
    def splittable(self, m, e): return True
    def split(self, m, old, new, seg):
        p = self.pts[old]
        for l in (old, new):
            q = [tuple(x) for x in m.edge(l)]
            self.pts[l] = [x for x in p if x in q]
            self.pv[l] = min(siv[x] for x in (self.pts[l] or (q[0], q[-1])))
    def check(self, c, m):
        for e in m.edgeIter():
            l = e.label()
            require({tuple(p) for p in self.s.edgeSaddles(e if c.p(1, 2) else l)} == set(self.pts[l]), 'saddles of edge', l, self.s.edgeSaddles(e), self.pts[l])
            require(self.s.dartPassValue(e) == self.pv[l] and self.s.dartPassValue(e.dart().nextAlpha()) == self.pv[l], 'pass value of', l, self.s.dartPassValue(e), self.pv[l])
            d = e.dart() if c.p(1, 2) else e.dart().nextAlpha()
            vs = [self.pv[x] for x in common(m, d)]
            if self.basins and has(self.basins, '_basinDepth') and None not in vs and 0 not in (d.leftFaceLabel(), d.rightFaceLabel()):
                want = self.pv[l] - min(self.basins._basinDepth[d.leftFaceLabel()], self.basins._basinDepth[d.rightFaceLabel()])
                for x in (d, e, l): require(self.s.dynamics(x) == want, 'dynamics of', l, self.s.dynamics(x), want)
            if None not in vs: require(self.s.passValue(d) == min(vs), 'pass value of common boundary', l, self.s.passValue(d), min(vs))

class Basins:
    splits = None   # faces only
    def __init__(self, c, m):
        faces = [f for f in m.faceIter() if f.label()]
        minima = []
        for f in faces:
            b = f.boundingBox()
            for _ in range(c.u(3)):
                p = tuple(b.begin()[k] + (b.end()[k] - b.begin()[k]) * (.031 + c.u(32) / 32 * .93) for k in (0, 1))
                if f.contains(p) and m.faceAt(p).label() == f.label(): minima.append((p, f.label()))
        with quiet(): self.s = st.WatershedBasinStatistics(m, [p for p, _ in minima], siv)
        need(self.s, '_basinDepth')
        self.ref = {}
        for p, l in minima: self.ref[l] = min(self.ref.get(l, 1e9), siv[p])
        for f in faces:
            v = self.s._basinDepth[f.label()]; require(v is not None, 'face', f.label(), 'has no depth')
            self.ref.setdefault(f.label(), v)
        c.note('WatershedBasinStatistics', minima)
    def facemerge(self, l, r, s): self.ref[s] = min(self.ref[l], self.ref[r])
    def check(self, c, m):
        for f in m.faceIter():
            if f.label(): require(self.s._basinDepth[f.label()] == self.ref[f.label()], 'depth of face', f.label(), self.s._basinDepth[f.label()], self.ref[f.label()])

class Boundary:
    splits = False
    def __init__(self, c, m):
        self.q = c.p(1, 2)
        F = geomap.QuantileStatistics if self.q else geomap.PolylineStatistics
        class S(st.EdgeGradientStatistics):
            __slots__ = []
            def __init__(self, m): st.BoundaryIndicatorStatistics.__init__(self, m); self._Functor = F; self._attachHooks()
        S.__module__ = '__main__'; S.__qualname__ = S.__name__ = 'BS%d' % self.q; setattr(sys.modules['__main__'], S.__name__, S)
        need(st.EdgeGradientStatistics, '_functors', '_attachHooks', '_Functor')
        self.s = S(m); self.vals = {}
        for e in m.edgeIter():
            self.vals[e.label()] = v = [(c.i(-6, 6) / 2, (1 + c.u(5)) / 4) for _ in range(1 + c.u(3))]
            self.s._functors[e.label()] = F()
            for x, l in v: self.s._functors[e.label()](x, l)
        c.note('EdgeGradientStatistics', self.vals)
    def allowed(self, m, a, b): return True
    def merged(self, a, b, s, la, lb): self.vals[s] = self.vals[a] + self.vals[b]
    def check(self, c, m):
        def val(v): return sum(x * l for x, l in v) / sum(l for _, l in v)
        def quant(v, p):
            acc, L = 0, sum(l for _, l in v)
            for x, l in sorted(v):
                acc += l
                if acc >= L * p: return x
        require(self.s.supportsQuantile() == self.q, 'supportsQuantile')
        for e in m.edgeIter():
            v = self.vals[e.label()]; d = e.dart() if c.p(1, 2) else e.dart().nextAlpha()
            require(near(self.s.dartAverage(d), val(v)) and self.s.dartMin(d) == min(v)[0] and self.s.dartMax(d) == max(v)[0], 'statistics of edge', e.label(), self.s.dartAverage(d), self.s.dartMin(d), self.s.dartMax(d), v)
            w = [x for l in common(m, d) for x in self.vals[l]]
            require(near(self.s.average(d), val(w)) and self.s.min(d) == min(w)[0] and self.s.max(d) == max(w)[0], 'statistics of the common boundary', e.label(), self.s.average(d), self.s.min(d), self.s.max(d), w)
            if self.q:
                p = c.u(9) / 8
                require(self.s.dartQuantile(p)(d) == quant(v, p) and self.s.quantile(p)(d) == quant(w, p), 'quantile', p, 'of', e.label(), self.s.dartQuantile(p)(d), quant(v, p), self.s.quantile(p)(d), quant(w, p))

def common(m, d):
    """edges (with multiplicity) on the contour of d that separate the same faces"""
    r = d.rightFaceLabel()
    return [abs(x) for x in orbit(m, d.label(), 'nextPhi') if m.dart(x).rightFaceLabel() == r]

KINDS = [Costs, Merged, Indices, Watershed, Basins, Boundary]

def dynamic(c):
    K = c.pick(KINDS); c.classify(K.__name__)
    late = K is Watershed and c.p(1, 3)
    if late: g = Gen(c); m = g.build(0)
    else: g, m = prepared(c, ops=2)
    if not m.edgeCount: return False
    for e in m.edgeIter():
        if c.p(1, 6): e.setFlag(BORDER)
    s = K(c, m)
    if late:    # edges that are added afterwards
        c.classify('nonWatershedEdgesAdded')
        for i in range(1 + c.u(3)):
            p = [(g.w + 2. + i, 0.), (g.w + 2.5 + i, 1.), (g.w + 2. + i, 2.)][:2 + c.u(2)]
            e = m.addEdge(m.addNode(p[0]), m.addNode(p[-1]), p); e.setFlag(BORDER); c.note('addEdge', e.label(), p)
            s.pts[e.label()] = []; s.pv[e.label()] = None
        s.s.nonWatershedEdgesAdded()
        m.sortEdgesDirectly(); m.initializeMap(c.p(1, 2))
    s.check(c, m)
    attached, merges = True, 0
    for _ in range(1 + c.u(7)):
        es = [e.label() for e in m.edgeIter()]
        if not es: break
        k = c.u(8)
        if k == 7 and not isinstance(s, Merged) and c.p(1, 2):     # (LabelLUT cannot be pickled)
            c.note('pickle')
            if m.maxEdgeLabel() != 1 + max(es): s.splits = False     # (pickling forgets labels beyond the largest used one)
            m, s.s, s.basins = pickle.loads(pickle.dumps((m, s.s, getattr(s, 'basins', None))))
            if isinstance(s, Watershed): need(s.s, '_gmSiv'); s.s._gmSiv = siv
        elif k == 6:
            d = m.dart(c.pick(es) * (1 if c.p(1, 2) else -1)); c.note('removeEdge', d.label())
            l, r = d.leftFaceLabel(), d.rightFaceLabel()
            if l != r:
                if (isinstance(s, Basins) or getattr(s, 'basins', None)) and 0 in (l, r): continue      # (the infinite face has no depth)
                f = m.mergeFaces(d)
                require(f is not None, 'mergeFaces vetoed')
                if isinstance(s, Basins): s.facemerge(l, r, f.label()); merges += 1
            else: require(m.removeBridge(d) is not None, 'removeBridge vetoed')
        elif k == 5 and s.splits:
            e = m.edge(c.pick(es))
            if e.flag(BORDER) and isinstance(s, Watershed): continue
            n = len(e); seg = c.u(n - 1)
            if seg and c.p(1, 2):
                c.note('splitEdge', e.label(), seg); x = m.splitEdge(e, seg)
            else:
                p = tuple((e[seg][k] + e[seg + 1][k]) / 2 for k in (0, 1)); c.note('splitEdge', e.label(), seg, p); x = m.splitEdge(e, seg, p)
            s.split(m, e.label(), x.label(), seg); merges += 1
        else:
            ds = []
            for n in m.nodeIter():
                if n.hasDegree(2):
                    a = n.anchor()
                    if a.edgeLabel() != a.clone().nextSigma().edgeLabel(): ds += [a.label(), a.clone().nextSigma().label()]
            if not ds: continue
            d = m.dart(c.pick(ds)); a, b = d.edgeLabel(), d.clone().nextSigma().edgeLabel(); la, lb = d.edge().length(), d.clone().nextSigma().edge().length()
            ok = not hasattr(s, 'allowed') or s.allowed(m, a, b)
            c.note('mergeEdges', d.label())
            before = snap(m)
            fa, fb = m.edge(a).flags(), m.edge(b).flags()
            r = m.mergeEdges(d)
            require((r is not None) == ok, 'mergeEdges was', 'performed' if r is not None else 'vetoed')
            if r is not None:
                if hasattr(s, 'merged'): s.merged(a, b, r.label(), la, lb)
                merges += 1
            else: same(before, snap(m), 'vetoed mergeEdges changed the map')
        s.check(c, m)
    if c.p(1, 4):
        c.note('detachHooks'); s.s.detachHooks()
        ds = [n.anchor().label() for n in m.nodeIter() if n.hasDegree(2) and n.anchor().edgeLabel() != n.anchor().clone().nextSigma().edgeLabel()]
        if ds: require(m.mergeEdges(m.dart(c.pick(ds))) is not None, 'mergeEdges vetoed after detachHooks()')
    return merges > 0

def measures(c):
    g, m = prepared(c, ops=3)
    some = False
    for l in darts(m):
        d = m.dart(l)
        a, b = d.leftFaceLabel(), d.rightFaceLabel()
        require([x.edgeLabel() for x in st.commonBoundaryDarts(d)] == common(m, d), 'commonBoundaryDarts')
        require(all(x.leftFaceLabel() == a and x.rightFaceLabel() == b for x in st.commonBoundaryDarts(d)), 'commonBoundaryDarts')
        if a == b or 0 in (a, b): continue
        some = True
        L = lambda cond, s: sum(m.dart(x).edge().length() for x in orbit(m, s, 'nextPhi') if cond(m.dart(x)))
        com = L(lambda x: x.rightFaceLabel() == b, l); left = L(lambda x: x.rightFaceLabel() != b, l); right = L(lambda x: x.rightFaceLabel() != a, -l)
        A, B = m.face(a).area(), m.face(b).area()
        require(near(st.mergedContourLength(d), left + right), 'mergedContourLength of', l, st.mergedContourLength(d), left + right)
        require(near(st.mergedIsoperimetricQuotient(d), (left + right)**2 / (4 * math.pi * (A + B))), 'mergedIsoperimetricQuotient')
        q = (left + right)**2 / (A + B)
        require(near(st.mergedIsoperimetricQuotient2(d), q / ((left + com)**2 / A + (right + com)**2 / B)), 'mergedIsoperimetricQuotient2')
        f = m.face(a); seed = c.p(1, 2); f.setFlag(flag_constants.SRG_SEED, seed)
        require(near(st.seedIsoperimetricQuotient(d), q / ((left + com)**2 / A if seed else (right + com)**2 / B)), 'seedIsoperimetricQuotient')
        require(near(st.faceAreaHomogeneity(d), A * B / (A + B)), 'faceAreaHomogeneity')
        w1, w2 = c.u(5) / 2, c.i(-3, 3)
        cm = st.combinedMeasure((w1, lambda d: d.edgeLabel()), (w2, st.faceAreaHomogeneity))
        require(near(cm(d), w1 * abs(l) + w2 * A * B / (A + B)), 'combinedMeasure')
        require(near(st.HyperbolicInverse(lambda d: w1)(d), d.edge().length() / (1e-4 + w1)), 'HyperbolicInverse')
        # before and after: the length of the merged contour is what the map reports after merging
    return some

@prop('P36', 'at least one merge or split while attached, or a dart between two finite faces')
def p36(c):
    f = measures if c.u(5) == 0 else dynamic
    c.classify(f.__name__)
    c.nontrivial(f(c))

if __name__ == '__main__':
    sys.exit(main())
