"""P19.. : the Python interface and the Python algorithms"""
import copy, pickle, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pygen import *

def roundtrip(c, m):
    k = c.u(4)
    if k == 0: return 'copy', copy.copy(m)
    if k == 1: return 'deepcopy', copy.deepcopy(m)
    proto = c.pick([2, 3, 4, 0, 1, 5])
    return 'pickle%d' % proto, pickle.loads(pickle.dumps(m, proto))

import flag_constants
geomap_ALL_PROTECTION = flag_constants.ALL_PROTECTION

@prop('P19', 'the map has at least two edges and a copy was modified afterwards (or the modified original compared with its copy)')
def p19(c):
    g = Gen(c)
    stage = c.pick([2, 2, 2, 2, 1, 0])
    m = g.build(stage, c.p(2, 3))
    for _ in range(c.u(5)):
        op = choose_op(c, m); c.note(op); apply_op(m, op)
    if c.p(1, 6) and stage == 2:
        v = c.p(1, 2); c.note('setHasLabelImage', v); m.setHasLabelImage(v)
    for e in m.edgeIter():
        if c.p(1, 3): e.setFlag(c.pick([1, 2, 4, 0x100, 0x80000000, 0x30]))
    if stage == 2:
        for f in m.faceIter():
            if c.p(1, 3): f.setFlag(c.pick([1, 2, 4, 0x100, 0x8000000, 0x30]))
    attrs = {}
    if c.p(1, 2):
        attrs['foo'] = [1, [2, 3]]; attrs['bar'] = 'x'
        m.foo = attrs['foo']; m.bar = 'x'
    protect = c.p(1, 4)
    if protect:
        m.ep = geomap.EdgeProtection(m)
        c.note('EdgeProtection')
    before = snap(m)
    kind, n = roundtrip(c, m)
    c.note('flags', before['eflags'], {l: f[0] for l, f in before.get('faces', {}).items()}, kind)
    c.classify('stage %d' % stage); c.classify(kind[:6]); c.classify('no edges', not m.edgeCount)
    same(snap(m), before, kind, 'changed the original:')
    same(snap(n), before, kind, 'differs from the original:')
    require(type(n) is type(m), 'type', type(n))
    nd = dict(n.__dict__)
    if protect:
        require(m.ep.map() is m and n.ep.map() is (m if kind == 'copy' else n), kind, 'protects another map')
        del nd['ep']
    require(nd == attrs, 'attributes', n.__dict__, '!=', attrs)
    if attrs:
        require((n.foo is m.foo) == (kind == 'copy'), kind, 'shares attributes' if n.foo is m.foo else 'does not share attributes')
    require(n.checkConsistency() == m.checkConsistency(), 'consistency differs')
    if stage == 2:
        for y in range(2 * g.h):
            for x in range(2 * g.w):
                p = (x / 2 - .25, y / 2 - .25)
                a, b = m.faceAt(p), n.faceAt(p)
                require((a and a.label()) == (b and b.label()), 'faceAt', p, a and a.label(), b and b.label())
    nn = m.nearestNode((0.3, 0.7)); no = n.nearestNode((0.3, 0.7))
    require((nn and nn.label()) == (no and no.label()), 'nearestNode differs')
    maxima = [(x.maxNodeLabel(), x.maxEdgeLabel()) for x in (m, n)]
    require(maxima[1] <= maxima[0] and (maxima[0] == maxima[1] or kind[0] == 'p'), 'label bounds', maxima)
    # afterwards, the two are independent and behave alike
    first, second = (m, n) if c.p(1, 2) else (n, m)
    ops = []
    for _ in range(1 + c.u(4)):
        op = choose_op(c, first); c.note(op)
        s0 = snap(first); blocked = False
        if protect and not (kind == 'copy' and first is n) and op[0] in ('removeEdge', 'removeBridge', 'mergeFaces') and first.mapInitialized():
            blocked = bool(first.dart(op[1]).edge().flag(geomap_ALL_PROTECTION))
        ops.append((op, apply_op(first, op), snap(first)))
        if blocked:
            same(snap(first), s0, op, 'removed a protected edge:')
            require(not ops[-1][1], op, 'reported success for a protected edge')
            c.classify('blocked by protection')
        if c.p(1, 3) and first.edgeCount:
            e = next(iter(first.edgeIter())); e.setFlag(0x200)
            ops[-1] = ops[-1][:2] + (snap(first),); op.append('flag')
    same(snap(second), before, 'changing one of the maps changed the other one (%s):' % kind)
    if protect and kind == 'copy':
        for x in [m.ep]: x.detachHooks()
        ops = []
    if maxima[0] != maxima[1] and any(o[0][0] == 'splitEdge' for o in ops):
        ops = []        # pickling forgets labels beyond the largest used one
    for op, r, s in ops:
        r2 = apply_op(second, op)
        if op[-1] == 'flag': next(iter(second.edgeIter())).setFlag(0x200)
        require(r == r2, op, 'gives', r, 'and', r2, 'for the', kind)
        same(snap(second), s, op, 'has another effect on the %s:' % kind)
    c.nontrivial(before['counts'][1] >= 2 and any(o[0][0] != 'none' for o in ops))

# --------------------------------------------------------------------------------------------------------------

def raises(exc, f, *a):
    try:
        f(*a)
    except exc:
        return True
    except Exception:
        return False
    return False

def check_api(c, m):
    """all ways to look at the map agree"""
    nl = [n.label() for n in m.nodeIter()]
    el = [e.label() for e in m.edgeIter()]
    fl = [f.label() for f in m.faceIter()]
    require(nl == sorted(set(nl)) and len(nl) == m.nodeCount, 'nodeIter', nl, m.nodeCount)
    require(el == sorted(set(el)) and len(el) == m.edgeCount, 'edgeIter', el, m.edgeCount)
    require(fl == sorted(set(fl)) and len(fl) == m.faceCount, 'faceIter', fl, m.faceCount)
    require([f.label() for f in m.faceIter(True)] == fl[1:] and fl[0] == 0, 'faceIter(skipInfinite)', fl)
    for labels, get, top in ((nl, m.node, m.maxNodeLabel()), (el, m.edge, m.maxEdgeLabel()), (fl, m.face, m.maxFaceLabel())):
        require(not labels or labels[-1] < top, 'label bound', top, labels)
        for l in range(top):
            x = get(l)
            require((x is not None) == (l in labels), 'cell', l, 'of', labels, 'is', x)
            require(x is None or (x.label() == l and x.initialized() and x == get(l)), 'cell', l, 'has label', x and x.label())
    for l in nl:
        n = m.node(l)
        ds = sorted(d for d in darts(m) if m.dart(d).startNodeLabel() == l)
        require(n.degree() == len(ds) and n.isIsolated() == (not ds), 'degree of node', l, n.degree(), ds)
        for k in range(4):
            require(n.hasDegree(k) == (len(ds) == k) and n.hasMinDegree(k) == (len(ds) >= k), 'hasDegree', l, k, ds)
        if ds:
            o = [d.label() for d in n.anchor().sigmaOrbit()]
            require(o == orbit(m, o[0], 'nextSigma') and sorted(o) == ds, 'sigma orbit of node', l, o, ds)
            require(o[:1] + o[:0:-1] == orbit(m, o[0], 'prevSigma'), 'prevSigma', o)
            require(str(l) in repr(n), 'repr', repr(n))
    for d in darts(m):
        x = m.dart(d); e = x.edge()
        require(x.label() == d and x.edgeLabel() == abs(d) and e.label() == abs(d) and x.guaranteedEdge() == e, 'dart', d)
        require(e.dart().label() == abs(d), 'Edge.dart')
        ends = (e.startNodeLabel(), e.endNodeLabel()); sides = (e.leftFaceLabel(), e.rightFaceLabel())
        if d < 0: ends, sides = ends[::-1], sides[::-1]
        require((x.startNodeLabel(), x.endNodeLabel()) == ends == (x.startNode().label(), x.endNode().label()), 'end nodes of dart', d)
        require((x.leftFaceLabel(), x.rightFaceLabel()) == sides == (x.leftFace().label(), x.rightFace().label()), 'sides of dart', d)
        pts = [tuple(p) for p in e]
        if d < 0: pts = pts[::-1]
        require(len(x) == len(pts) and [tuple(p) for p in x] == pts and [tuple(x[i]) for i in range(len(pts))] == pts, 'points of dart', d)
        require([tuple(x[i]) for i in range(-len(pts), 0)] == pts, 'negative indices of dart', d)
        require(raises(IndexError, lambda: x[len(pts)]) and raises(IndexError, lambda: x[-len(pts) - 1]), 'index out of range accepted')
        require(pts[0] == tuple(x.startNode().position()) and pts[-1] == tuple(x.endNode().position()), 'dart', d, 'does not end in its nodes')
        require(e.isLoop() == (ends[0] == ends[1]) and e.isBridge() == (sides[0] == sides[1]), 'isLoop/isBridge', abs(d))
        require([y.label() for y in x.alphaOrbit()] == [d, -d], 'alpha orbit of', d)
        o = [y.label() for y in x.phiOrbit()]
        require(o == orbit(m, d, 'nextPhi'), 'phi orbit of', d, o)
        require(o[:1] + o[:0:-1] == orbit(m, d, 'prevPhi'), 'prevPhi', d)
        require(x.clone().nextPhi() == x.clone().nextAlpha().prevSigma(), 'phi != alpha, sigma^-1')
        require(x.label() == d, 'clone() does not copy')
        pa = sum(a[1] * b[0] - a[0] * b[1] for a, b in zip(pts, pts[1:])) / 2
        require(abs(x.partialArea() - pa) < 1e-9, 'partialArea', d, x.partialArea(), pa)
        contour = [p for y in x.phiOrbit() for p in [tuple(q) for q in y][:-1]]
        require([tuple(p) for p in geomap.ContourPointIter(x)] == contour[1:] + contour[:1], 'ContourPointIter', d)
        require([tuple(p) for p in geomap.ContourPointIter(x, True)] == contour + contour[:1], 'ContourPointIter(firstTwice)', d)
        cp = [tuple(p) for p in geomap.contourPoly(x)]
        require(cp == contour + contour[:1], 'contourPoly', d, cp, contour)
        cl = contour + contour[:1]
        ar = sum(a[1] * b[0] - a[0] * b[1] for a, b in zip(cl, cl[1:])) / 2
        ln = sum(((a[0] - b[0])**2 + (a[1] - b[1])**2)**.5 for a, b in zip(cl, cl[1:]))
        require(abs(geomap.contourArea(x) - ar) < 1e-9 and abs(geomap.contourLength(x) - ln) < 1e-9, 'contourArea/Length', d)
        if ar: require(abs(geomap.isoperimetricQuotient(x) - ln * ln / (4 * 3.141592653589793 * ar)) < 1e-6, 'isoperimetricQuotient', d)
    for l in fl:
        f = m.face(l)
        cs = [a.label() for a in f.contours()]; hs = [a.label() for a in f.holeContours()]
        require(hs == (cs[1:] if l else cs) and f.holeCount() == len(hs), 'contours of face', l, cs, hs)
        if cs: require(f.contour().label() == cs[0], 'contour()')
        got = sorted(d for a in cs for d in orbit(m, a, 'nextPhi'))
        require(got == sorted(d for d in darts(m) if m.dart(d).leftFaceLabel() == l), 'contour darts of face', l, got)
    sm = m.sigmaMapping()
    mid = len(sm) // 2
    require(len(sm) % 2 == 1, 'length of the sigma mapping', len(sm))
    for d in range(-mid, mid + 1):
        exists = d and abs(d) < m.maxEdgeLabel() and m.edge(abs(d)) is not None
        if exists: require(sm[mid + d] == m.dart(d).nextSigma().label(), 'sigma mapping of', d)
    for d in darts(m): require(abs(d) <= mid, 'sigma mapping too short')

@prop('P20', 'the map has at least two edges and at least one operation was performed or vetoed with callbacks attached')
def p20(c):
    g, m = prepared(c, 3)
    check_api(c, m)
    # sigma mapping: a graph given the same permutation becomes the same map
    n = GeoMap(g.nodepos, g.edges if len(g.edges) > 1 else [], geomap.Size2D(g.w, g.h))
    o = g.build(2, False)
    if n.edgeCount:
        sm = o.sigmaMapping()
        pad = c.u(3)
        n.setSigmaMapping([0] * pad + sm + [0] * pad)
        require(n.edgesSorted() and not n.mapInitialized(), 'setSigmaMapping')
        n.initializeMap(False)
        same(snap(n), snap(o), 'setSigmaMapping(sigmaMapping()) gives another map:')
    # callbacks
    log, cbs, veto = [], [], set()
    def lab(x): return [y.label() if hasattr(y, 'label') else y for y in x]
    boom, cur = [None], [None]
    def pre(kind, who):
        def f(*a):
            # (operations that are part of another one are called in intermediate states)
            log.append(('pre' + kind, who, lab(a), snap(m) if kind == cur[0] else None))
            if boom[0] == (kind, who): raise KeyError('boom')
            return (kind, who) not in veto
        return f
    def post(kind, who):
        def f(*a): log.append(('post' + kind, who, lab(a), snap(m) if kind == cur[0] else None))
        return f
    kinds = {'MergeEdges': 'mergeEdges', 'RemoveBridge': 'removeBridge', 'MergeFaces': 'mergeFaces', 'SplitEdge': 'splitEdge'}
    conn = {}
    for who in range(1 + c.u(2)):
        for k in kinds:
            conn[k, who] = getattr(m, 'add%sCallbacks' % k)(pre(k, who), post(k, who))
        conn['RemoveNode', who] = m.addRemoveNodeCallback(pre('RemoveNode', who))
        conn['AssociatePixels', who] = m.addAssociatePixelsCallback(post('AssociatePixels', who))
    for k in sorted(conn): require(conn[k].connected(), 'not connected')
    done = False
    for _ in range(1 + c.u(5)):
        r = c.u(8)
        if r == 0 and conn:
            k = c.pick(sorted(conn)); c.note('disconnect', k); conn[k].disconnect()
            require(not conn[k].connected(), 'still connected'); 
            if c.p(1, 2): del conn[k]
        elif r == 1 and conn:
            k = c.pick(sorted(conn)); c.note('delete', k); del conn[k]
        op = choose_op(c, m)
        veto.clear(); boom[0] = None
        if c.p(1, 3):
            veto.add(c.pick(sorted(conn) or [('x', 0)]))
        elif c.p(1, 6):
            boom[0] = c.pick(sorted(conn) or [('x', 0)])
        c.note(op, 'veto', sorted(veto), 'raise', boom[0])
        active = {k for k in conn if conn[k].connected()}
        before = snap(m); del log[:]
        name = op[0]
        if name == 'none': continue
        if name == 'removeEdge':
            name = 'removeBridge' if m.edge(abs(op[1])).isBridge() else 'mergeFaces'
        main = {v: k for k, v in kinds.items()}.get(name, 'RemoveNode')
        cur[0] = main
        if boom[0] and boom[0][0] != main: boom[0] = None
        if boom[0]: veto.clear()
        try:
            res = apply_op(m, op); exc = False
        except KeyError:
            exc = True
        after = snap(m)
        for e in log: c.note(e[:3])
        first = [e for e in log if e[0] == 'pre' + main]
        whos = sorted(w for k, w in active if k == main)
        refused = any((main, w) in veto for w in whos) and main != 'SplitEdge'
        crash = boom[0] in active and boom[0][0] == main
        for e in first: same(e[3], before, 'the map had already changed when the callback before the operation was called:')
        args = {'RemoveNode': [op[1]], 'SplitEdge': [op[1], op[2] if len(op) > 2 else 0, op[3] if len(op) > 3 else 0]}.get(main)
        for e in first:
            if main == 'RemoveNode': require(e[2] == args, 'callback arguments', e[2], args)
            elif main == 'SplitEdge': require(e[2][:2] == args[:2] and tuple(e[2][2]) == args[2], 'callback arguments', e[2], args)
            elif main == 'MergeEdges': require(before['sigma'].get(e[2][0]) in (op[1], before['sigma'][op[1]]) and e[2][0] in (op[1], before['sigma'][op[1]]), 'callback dart', e[2], op)
            else: require(e[2] in ([op[1]], [-op[1]]), 'callback dart', e[2], op)
        if main == 'MergeEdges' and any(e[0] == 'preRemoveNode' and ('RemoveNode', e[1]) in veto for e in log):
            require(not exc and not res, op, 'reported success though its node must not be removed')
            same(after, before, 'refused operation changed the map:')
            c.classify('node vetoed'); done = True
            continue
        if crash:
            require(exc, 'the exception of a callback was swallowed')
            same(after, before, 'an exception before the operation changed the map:')
            continue
        if refused:
            require(not exc and not res, op, 'reported success though refused by a callback')
            same(after, before, 'refused operation changed the map:')
            require(not [e for e in log if e[0].startswith('post')], 'callback after a refused operation')
            require(first and all(e[1] in whos for e in first), 'callbacks', [e[:3] for e in log])
            c.classify('vetoed'); done = True
            continue
        require([e[1] for e in first] == whos, 'callbacks', main, 'called for', [e[1] for e in first], 'instead of', whos)
        require(not exc, 'exception')
        posts = [e for e in log if e[0] == 'post' + main]
        if main != 'RemoveNode':
            require([e[1] for e in posts] == whos, 'callbacks after', main, 'called for', [e[1] for e in posts], 'instead of', whos)
            for e in posts:
                want = [op[1], res] if main == 'SplitEdge' else [res]
                require(e[2] == want, 'arguments after the operation', e[2], want)
                for k in ('nodes', 'edges', 'sigma', 'sides', 'eflags'): require(e[3][k] == after[k], 'the map still changed after the callback:', k, e[3][k], after[k])
        for e in log:
            if e[0] == 'postAssociatePixels':
                f, px = e[2]
                require(main in ('MergeFaces', 'RemoveBridge') and f == res, 'pixels associated with', f, 'by', op)
                for p in px:
                    x, y = int(p[0]), int(p[1])
                    require(before['labels'][x][y] < 0 and after['labels'][x][y] == f, 'pixel', (x, y), 'changed from', before['labels'][x][y], 'to', after['labels'][x][y])
        if main in ('MergeFaces', 'RemoveBridge') and after['labels'] is not None:
            turned = {(x, y) for x, col in enumerate(after['labels']) for y, v in enumerate(col) if v >= 0 and before['labels'][x][y] < 0}
            for w in sorted(w for k, w in active if k == 'AssociatePixels'):
                said = [(int(p[0]), int(p[1])) for e in log if e[0] == 'postAssociatePixels' and e[1] == w for p in e[2][1]]
                require(len(said) == len(set(said)) and set(said) == turned, 'associated pixels', sorted(said), 'instead of', sorted(turned))
        require(all((e[0].replace('post', '').replace('pre', ''), e[1]) in active for e in log), 'disconnected callback was called', [e[:3] for e in log])
        done = True; c.classify(main)
    if c.p(1, 2): check_api(c, m)
    c.nontrivial(done and before['counts'][1] >= 2)

if __name__ == '__main__':
    sys.exit(main())
