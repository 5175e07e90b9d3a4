// P16 label table / spatial index / filter iterators, P17 DartPosition, P18 sorting and merging of parallel edges,
// P26 digital straight lines, P31 drawing label images
#include "gm_ops.hxx"
#include "labellut.hxx"
#include "filteriterator.hxx"
#include "vigra/map2d.hxx"
#include "vigra/dsl.hxx"
#include <vigra/multi_array.hxx>
#include <vigra/multi_pointoperators.hxx>
using namespace gm;

/********************************************************************/
/*                              P16                                 */
/********************************************************************/
struct Pred { std::vector<char> const *keep; Pred(std::vector<char> const *k = 0) : keep(k) {} bool operator()(int v) const { return (*keep)[v]; } };

static void lutCase(pbt::Ctx &g)
{
    unsigned n = g.i(1, 14);
    LabelLUT lut(g.u(2) ? n : 0);
    if(lut.size() != n) { unsigned pre = g.u(n + 1); lut.initIdentity(pre); while(lut.size() < n) lut.appendOne(); g.classify("grown table"); }
    std::vector<unsigned> root(n); for(unsigned i = 0; i < n; ++i) root[i] = i;
    int k = g.i(0, 16), done = 0;
    for(int q = 0; q < k; ++q)
    {
        if(g.p(1,6)) { lut.appendOne(); root.push_back(n); ++n; g.text << "appendOne\n"; }
        else
        {
            unsigned a = root[g.u(n)], b = root[g.u(n)];
            if(a == b) continue;
            g.text << "relabel(" << a << "," << b << ")\n"; ++done;
            lut.relabel(a, b);
            for(auto &r : root) if(r == a) r = b;
        }
        if(g.p(1,10)) { LabelLUT c(lut); lut = c; }
        REQUIRE(lut.size() == n, "label table has size " << lut.size() << " instead of " << n);
        for(unsigned i = 0; i < n; ++i) REQUIRE(lut[i] == root[i], "label " << i << " maps to " << lut[i] << " instead of " << root[i]);
        for(unsigned i = 0; i < n; ++i) if(root[i] == i)
        {
            std::multiset<unsigned> got, want; int guard = 0; bool first = true;
            for(LabelLUT::MergedIterator it = lut.mergedBegin(i); it.inRange(); ++it) { REQUIRE(++guard < 1000, "merged list does not end"); if(first) REQUIRE(*it == i, "merged list does not start with the label"); first = false; got.insert(*it); }
            for(unsigned j = 0; j < n; ++j) if(root[j] == i) want.insert(j);
            REQUIRE(got == want, "labels merged into " << i << ": " << got.size() << " instead of " << want.size());
        }
    }
    if(g.p(1,8)) { lut.initIdentity(n); for(unsigned i = 0; i < n; ++i) { LabelLUT::MergedIterator mi = lut.mergedBegin(i); ++mi; REQUIRE(lut[i] == i && mi.atEnd(), "initIdentity"); } }
    g.nontrivial(done >= 2);
}
static void map2dCase(pbt::Ctx &g)
{
    typedef vigra::PositionedObject<Vector2, int> PO; typedef vigra::Map2D<PO> M;
    M m; std::vector<PO> model; int next = 0, queries = 0;
    int k = g.i(2, 30), range = g.pick(std::vector<int>{3, 8, 30});
    auto pt = [&]() { double x = g.i(-range, range) / 2.0; return Vector2(x, g.i(-range, range) / 2.0); };
    if(g.p(1,4))
    {
        std::vector<PO> v; int n = g.u(8); for(int i = 0; i < n; ++i) v.push_back(PO(pt(), next++));
        m.insert(PO(pt(), -1));
        m.fillFrom(v.begin(), v.end()); model = v; g.text << "fillFrom " << n << "\n";
    }
    for(int q = 0; q < k; ++q)
    {
        int op = g.u(4);
        if(op <= 1) { Vector2 p = pt(); m.insert(PO(p, next)); model.push_back(PO(p, next++)); g.text << "insert " << toP(p) << "\n"; }
        else if(op == 2 && model.size())
        {
            int i = g.u(model.size());
            for(M::iterator it = m.begin(); it != m.end(); ++it) if(it->second.payload == model[i].payload) { m.erase(it); break; }
            g.text << "erase " << toP(model[i].position) << "\n"; model.erase(model.begin() + i);
        }
        else
        {
            Vector2 p = pt(); double lim = g.u(3) ? vigra::NumericTraits<double>::max() : g.pick(std::vector<double>{0.25, 1, 2, 4, 25, 100});
            g.text << "nearest " << toP(p) << " " << lim << "\n"; ++queries;
            double best = lim; bool any = false;
            for(auto const &o : model) { double d = (o.position - p).squaredMagnitude(); if(d < best) { best = d; any = true; } }
            M const &cm = m;
            M::iterator it = m.nearest(PO(p, 0), lim); M::const_iterator ci = cm.nearest(PO(p, 0), lim);
            REQUIRE((it != m.end()) == any && (ci != cm.end()) == any, "nearest found " << (it != m.end()) << ", expected " << any);
            if(any)
            {
                REQUIRE((it->second.position - p).squaredMagnitude() == best && (ci->second.position - p).squaredMagnitude() == best, "nearest returned an object at squared distance " << (it->second.position - p).squaredMagnitude() << ", but " << best << " exists");
                bool ok = false; for(auto const &o : model) ok |= o.payload == it->second.payload; REQUIRE(ok, "nearest returned an erased object");
            }
        }
        REQUIRE(m.size() == model.size(), "size is " << m.size() << " instead of " << model.size());
    }
    double last = -1e9; size_t n = 0; for(M::const_iterator it = m.begin(); it != m.end(); ++it, ++n) { REQUIRE(it->first == it->second.position[0] && it->first >= last, "iteration order"); last = it->first; }
    REQUIRE(n == model.size(), "iteration visits " << n << " objects");
    g.nontrivial(queries > 0 && model.size() > 0);
}
static void filterCase(pbt::Ctx &g)
{
    int n = g.i(0, 20); std::vector<char> keep(n); std::vector<int> v(n);
    for(int i = 0; i < n; ++i) { v[i] = i; keep[i] = g.u(2); }
    std::vector<int> want; for(int i = 0; i < n; ++i) if(keep[i]) want.push_back(i);
    { std::vector<int> got; for(vigra::FilterIterator<std::vector<int>::iterator, Pred> it(v.begin(), v.end(), Pred(&keep)); it.inRange(); ++it) { REQUIRE(!it.atEnd(), "atEnd"); got.push_back(*it); } REQUIRE(got == want, "FilterIterator visits " << got.size() << " elements instead of " << want.size()); }
    { // the safe variant skips elements that stop satisfying the predicate while iterating
        std::vector<int> got, w2; std::vector<char> k2 = keep;
        vigra::SafeFilterIterator<std::vector<int>::iterator, Pred> it(v.begin(), v.end(), Pred(&k2));
        std::vector<char> k3 = keep; int pos = 0; int guard = 0;
        while(it.inRange()) { REQUIRE(++guard < 1000, "SafeFilterIterator does not end"); int x = *it; got.push_back(x); REQUIRE(k2[x], "SafeFilterIterator yields a filtered element"); int kill = n ? g.u(n) : 0; k2[kill] = 0; if(g.u(2)) ++it; else it++;
            if(n && g.u(2)) { k2[g.u(n)] = 0; if(g.u(3) == 0) { bool rest = false; for(int i = x + 1; i < n; ++i) rest |= k2[i]; REQUIRE(it.atEnd() == !rest, "SafeFilterIterator::atEnd() is " << it.atEnd()); } } }
        for(size_t i = 1; i < got.size(); ++i) REQUIRE(got[i] > got[i-1], "SafeFilterIterator order");
        for(int i = 0; i < n; ++i) if(k2[i]) { bool f = false; for(int x : got) f |= x == i; REQUIRE(f, "SafeFilterIterator skipped element " << i); }
    }
    {   int W = g.i(1, 6), H = g.i(1, 6); vigra::IImage im(W, H); std::vector<char> k(3); for(auto &x : k) x = g.u(2);
        std::vector<std::pair<int,int> > w, got; int id = 0;
        int x0 = g.u(W), y0 = g.u(H), x1 = g.i(x0 + 1, W), y1 = g.i(y0 + 1, H);
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) im(x, y) = g.u(3);
        for(int y = y0; y < y1; ++y) for(int x = x0; x < x1; ++x) if(k[im(x, y)]) w.push_back(std::make_pair(x, y));
        typedef vigra::ImageFilterIterator<Pred, vigra::IImage::Iterator> IFI;
        IFI it(im.upperLeft() + vigra::Diff2D(x0, y0), im.upperLeft() + vigra::Diff2D(x1, y1), vigra::IImage::Accessor(), Pred(&k));
        for(; it.inRange(); ++it) { REQUIRE(++id < 1000, "ImageFilterIterator does not end"); int *p = &*it; int o = p - &im(0, 0); got.push_back(std::make_pair(o % W, o / W)); }
        REQUIRE(got == w, "ImageFilterIterator visits " << got.size() << " pixels instead of " << w.size() << " (or different ones)"); }
    g.nontrivial(want.size() > 1);
}
PROP(P16, "two or more relabellings, or a query on a non-empty index, or two or more elements passing the filter")
{
    int k = g.u(5);
    g.classify(k < 2 ? "label table" : k < 4 ? "spatial index" : "filter iterators");
    if(k < 2) lutCase(g); else if(k < 4) map2dCase(g); else filterCase(g);
}

/********************************************************************/
/*                              P17                                 */
/********************************************************************/
PROP(P17, "dart with at least two segments and at least three moves")
{
    int n = g.i(2, 8);
    Pts p; P c(g.i(-8, 8) / 2.0, g.i(-8, 8) / 2.0); p.push_back(c);
    while((int)p.size() < n) { P q(c.x + g.i(-6, 6) / 2.0, c.y + g.i(-6, 6) / 2.0); if(q != c) { p.push_back(q); c = q; } else { p.push_back(P(c.x + 0.5, c.y)); c = p.back(); } }
    bool loop = p.front() == p.back();
    GeoMap map(vigra::Size2D(10, 10));
    Vector2Array a; for(auto const &q : p) a.push_back(toV(q));
    GeoMap::NodePtr s = map.addNode(toV(p.front())), e = loop ? s : map.addNode(toV(p.back()));
    GeoMap::EdgePtr ed = map.addEdge(*s, *e, a);
    int dl = g.u(2) ? (int)ed->label() : -(int)ed->label();
    if(dl < 0) std::reverse(p.begin(), p.end());
    g.text << "dart " << dl << ": " << p << "\n";
    std::vector<double> cum(1, 0.0); for(size_t i = 1; i < p.size(); ++i) cum.push_back(cum.back() + std::hypot(p[i].x - p[i-1].x, p[i].y - p[i-1].y));
    double L = cum.back(); int nseg = p.size() - 1;
    auto at = [&](double l) { int i = 0; while(i < nseg - 1 && l >= cum[i+1]) ++i; double t = (l - cum[i]) / (cum[i+1] - cum[i]); return P(p[i].x + t * (p[i+1].x - p[i].x), p[i].y + t * (p[i+1].y - p[i].y)); };
    auto isNear = [](P a, P b) { return std::hypot(a.x - b.x, a.y - b.y) < 1e-6; };
    GeoMap::Dart dart = map.dart(dl);
    {   // point access in the direction of the dart
        REQUIRE(dart.size() == p.size(), "dart size");
        for(size_t i = 0; i < p.size(); ++i) REQUIRE(toP(dart[i]) == p[i], "dart[" << i << "]");
        size_t i = 0; for(DartPointIter it(dart); it.inRange(); ++it, ++i) REQUIRE(i < p.size() && toP(*it) == p[i], "DartPointIter visits a wrong point at " << i);
        REQUIRE(i == p.size(), "DartPointIter visits " << i << " points");
    }
    DartPosition dp(dart);
    int seg = 0; double pos = 0; bool end = false;    // model: current segment, arc length, beyond the last segment
    int moves = g.i(1, 10), back = 0;
    for(int k = 0; k <= moves; ++k)
    {
        REQUIRE(dp.dartLabel() == dl && dp.dart().label() == dl, "dart label changed");
        REQUIRE(dp.atEnd() == end, "atEnd() is " << dp.atEnd() << ", expected " << end);
        REQUIRE(std::abs(dp.arcLength() - pos) < 1e-6, "arcLength() is " << dp.arcLength() << " instead of " << pos);
        P want = end ? p.back() : at(pos);
        REQUIRE(isNear(toP(dp()), want), "position is " << toP(dp()) << " instead of " << want << " at arc length " << pos);
        if(!end)
        {
            REQUIRE((int)dp.segmentIndex() == seg, "segmentIndex() is " << dp.segmentIndex() << " instead of " << seg);
            REQUIRE(toP(dp.segmentStart()) == p[seg] && toP(dp.segmentEnd()) == p[seg+1], "segment is " << toP(dp.segmentStart()) << toP(dp.segmentEnd()) << " instead of " << p[seg] << p[seg+1]);
            REQUIRE(std::abs(dp.segmentLength() - (cum[seg+1] - cum[seg])) < 1e-9, "segmentLength()");
        }
        if(k == moves) break;
        int op = g.u(8);
        if(op <= 3)
        {
            int kind = g.u(8); double l;
            if(kind < 5) { int i = g.u(nseg); l = cum[i] + (cum[i+1] - cum[i]) * g.pick(std::vector<double>{0.5, 0.25, 0.75, 0.125}); }
            else if(kind == 5) l = 0;
            else if(kind == 6) l = L + g.pick(std::vector<double>{0.5, 3});
            else l = -g.pick(std::vector<double>{0.5, 3});
            g.text << "gotoArcLength(" << l << ")\n";
            back += l < pos;
            bool r = dp.gotoArcLength(l);
            REQUIRE(r == (l >= 0 && l < L), "gotoArcLength(" << l << ") returned " << r << ", dart length is " << L);
            if(r) { pos = l; end = false; seg = 0; while(seg < nseg - 1 && l >= cum[seg+1]) ++seg; }
            else if(l > 0) { pos = L; end = true; }
            else { pos = 0; end = false; seg = 0; }
        }
        else if(op == 4)
        {
            g.text << "gotoNextSegment\n";
            bool r = dp.gotoNextSegment();
            bool w = !end && seg < nseg - 1;
            REQUIRE(r == w, "gotoNextSegment returned " << r);
            if(w) { ++seg; pos = cum[seg]; } else { end = true; pos = L; }
        }
        else if(op == 5)
        {
            g.text << "gotoPrevSegment\n"; ++back;
            bool r = dp.gotoPrevSegment();
            bool w = end || seg > 0;
            REQUIRE(r == w, "gotoPrevSegment returned " << r);
            if(end) { end = false; seg = nseg - 1; } else if(seg) --seg;
            pos = cum[seg];
        }
        else
        {   // circle around the start of the current segment or the current position
            if(end) continue;
            P ctr = g.u(2) ? p[seg] : at(pos);
            double r2 = g.pick(std::vector<double>{0.0625, 0.25, 1, 2, 9, 100});
            auto d2 = [&](P q) { return (q.x - ctr.x) * (q.x - ctr.x) + (q.y - ctr.y) * (q.y - ctr.y); };
            if(d2(p[seg]) >= r2) continue;         // start must be inside
            int j = seg; while(j < nseg && d2(p[j+1]) < r2) ++j;
            bool amb = false; for(int i = seg + 1; i <= nseg; ++i) amb |= std::abs(d2(p[i]) - r2) < 1e-9;
            if(amb) continue;
            if(op == 6)
            {
                g.text << "leaveCircle(" << ctr << "," << r2 << ")\n";
                bool r = dp.leaveCircle(toV(ctr), r2);
                REQUIRE(r == (j < nseg), "leaveCircle returned " << r);
                if(j == nseg) { end = true; pos = L; }
                else
                {
                    REQUIRE((int)dp.segmentIndex() == j && toP(dp()) == p[j+1], "leaveCircle stopped at " << toP(dp()) << " instead of " << p[j+1]);
                    REQUIRE(std::abs(dp.arcLength() - cum[j+1]) < 1e-6, "arcLength() after leaveCircle is " << dp.arcLength());
                    // now at the end of segment j
                    seg = j; pos = cum[j+1]; 
                    dp.gotoNextSegment(); if(seg < nseg - 1) ++seg; else end = true;
                }
                g.classify("leaveCircle");
            }
            else
            {
                g.text << "intersectCircle(" << ctr << "," << r2 << ")\n";
                bool r = dp.intersectCircle(toV(ctr), r2);
                REQUIRE(r == (j < nseg), "intersectCircle returned " << r);
                if(j == nseg) { end = true; pos = L; g.classify("circle contains rest of dart"); }
                else
                {
                    double dist = std::sqrt(d2(toP(dp())));
                    REQUIRE(std::abs(dist - std::sqrt(r2)) < 1e-6, "intersectCircle stopped at distance " << dist << " instead of " << std::sqrt(r2));
                    REQUIRE((int)dp.segmentIndex() == j, "intersectCircle stopped in segment " << dp.segmentIndex() << " instead of " << j);
                    pos = dp.arcLength(); seg = j;
                    REQUIRE(pos > cum[j] - 1e-6 && pos < cum[j+1] + 1e-6, "intersectCircle: arc length " << pos << " outside of segment " << j);
                    g.classify("intersectCircle");
                }
            }
        }
    }
    g.classify("backward moves", back > 0); g.classify("reversed dart", dl < 0); g.classify("end reached", end);
    g.nontrivial(nseg > 1 && moves >= 3);
}

/********************************************************************/
/*                              P18                                 */
/********************************************************************/
struct TreeNode { P pos; int parent; std::vector<int> kids; };

// edges running in parallel (not exactly on top of each other): which one survives merging
static void survivorCase(pbt::Ctx &g)
{
    static const int ANG[6] = {-60, -35, -12, 20, 45, 70};
    std::vector<int> sel; for(int k = 0; k < 6; ++k) if(g.u(2)) sel.push_back(k);
    while(sel.size() < 2) { int k = g.u(6); if(std::find(sel.begin(), sel.end(), k) == sel.end()) sel.push_back(k); }
    std::sort(sel.begin(), sel.end());
    int n = sel.size(), L = g.i(2, 6), dir = g.u(4); bool pref = g.u(3) > 0;
    double step = g.pick(std::vector<double>{0.1, 0.2, 0.3}), minD = step / 50, off = minD / 40;
    auto rot = [&](double x, double y) { for(int k = 0; k < dir; ++k) { double t = x; x = -y; y = t; } return P(20 + x, 20 + y); };
    GeoMap m(vigra::Size2D(40, 40));
    GeoMap::NodePtr c = m.addNode(toV(rot(0, 0)));
    std::vector<int> ins(n); for(int i = 0; i < n; ++i) ins[i] = i;
    for(int i = 0; i + 1 < n; ++i) std::swap(ins[i], ins[i + g.u(n - i)]);
    std::vector<Pts> path(n); std::vector<int> label(n), dartOf(n); std::vector<unsigned> flag(n); bool gap = false;
    for(int i : ins)
    {
        double d = off * i, a = ANG[sel[i]] * M_PI / 180; Pts p(1, rot(0, 0));
        for(int x = 1; x <= L; ++x) p.push_back(rot(x, d));
        p.push_back(rot(L + 4 * std::cos(a), d + 4 * std::sin(a)));
        path[i] = p;
        GeoMap::NodePtr e = m.addNode(toV(p.back()));
        bool out = g.u(2); if(!out) std::reverse(p.begin(), p.end());
        Vector2Array v; for(auto const &q : p) v.push_back(toV(q));
        CellLabel wantLabel = 0; if(g.p(1,5)) { wantLabel = m.maxEdgeLabel() + 1; gap = true; }
        GeoMap::EdgePtr ed = out ? m.addEdge(*c, *e, v, wantLabel) : m.addEdge(*e, *c, v, wantLabel);
        label[i] = ed->label(); flag[i] = 0x100u << g.u(6); ed->setFlag(flag[i]); dartOf[i] = out ? (int)ed->label() : -(int)ed->label();
        g.text << " e" << ed->label() << (out ? " from" : " to") << " centre: " << p << "\n";
    }
    std::vector<std::pair<double,int> > extra;     // further edges at the centre, far away from the bundle
    for(int k = 1; k < 4; ++k) if(g.u(2))
    {
        P q = k == 1 ? rot(0, -5) : k == 2 ? rot(-5, 0) : rot(0, 5); Vector2Array v; v.push_back(toV(rot(0, 0))); v.push_back(toV(q));
        GeoMap::EdgePtr ed = m.addEdge(*c, *m.addNode(toV(q)), v); extra.push_back(std::make_pair(k == 1 ? 1.6 : k == 2 ? 3.1 : -1.6, (int)ed->label()));
        g.text << " e" << ed->label() << " from centre to " << q << "\n"; g.classify("bundle and other edges");
    }
    g.text << "stepDist " << step << "\n";
    GeoMap::UnsortableGroups u; m.sortEdgesEventually(step, minD, u, true);
    REQUIRE(u.empty(), "unsortable groups reported although all edges diverge");
    {   // order around the centre before splitting
        std::vector<std::pair<double,int> > w;
        for(int i = 0; i < n; ++i) w.push_back(std::make_pair(-ANG[sel[i]] / 1000.0, dartOf[i]));      // the bundle, by where its edges end up
        for(auto const &x : extra) w.push_back(x);
        std::sort(w.begin(), w.end());
        std::vector<int> want, got = snap(m).nodes.at(c->label()).orbit; for(auto const &x : w) want.push_back(x.second);
        std::ostringstream ws, os; for(int x : canon(want)) ws << " " << x; for(int x : canon(got)) os << " " << x;
        REQUIRE(canon(got) == canon(want), "order around the centre is" << os.str() << " instead of" << ws.str());
    }
    int best = 0;
    if(pref)
    {
        std::vector<int> rank(n); for(int i = 0; i < n; ++i) rank[i] = i + 1;
        for(int i = 0; i + 1 < n; ++i) std::swap(rank[i], rank[i + g.u(n - i)]);
        std::auto_ptr<GeoMap::EdgePreferences> ep(new GeoMap::EdgePreferences(m.maxEdgeLabel(), 0.0));
        for(int i = 0; i < n; ++i) { (*ep)[label[i]] = rank[i] / 4.0; if(rank[i] > rank[best]) best = i; g.text << " preference of e" << label[i] << " " << rank[i] / 4.0 << "\n"; }
        m.setEdgePreferences(ep);
    }
    else for(int i = 1; i < n; ++i) if(std::abs(ANG[sel[i]]) < std::abs(ANG[sel[best]])) best = i;
    m.splitParallelEdges();
    REQUIRE(m.checkConsistency(), "checkConsistency() fails after splitParallelEdges");
    Snap b = snap(m);
    REQUIRE(b.edges.size() + 1 == b.nodes.size(), "splitParallelEdges: " << b.edges.size() << " edges connect " << b.nodes.size() << " nodes");
    std::vector<int> rest = b.nodes.at(c->label()).orbit; for(auto const &x : extra) rest.erase(std::remove(rest.begin(), rest.end(), x.second), rest.end());
    REQUIRE(rest.size() == 1 && b.nodes.at(c->label()).orbit.size() == 1 + extra.size(), "the common beginning was not merged");
    int d = rest[0]; Pts tr = b.edges.at(std::abs(d)).pts; if(d < 0) std::reverse(tr.begin(), tr.end());
    for(int x = 0; x < L; ++x)
        REQUIRE(x < (int)tr.size() && tr[x] == path[best][x], "the merged beginning does not follow edge " << label[best] << " (" << (pref ? "highest preference" : "straightest continuation") << ") at point " << x);
    unsigned all = 0; for(unsigned f : flag) all |= f;
    REQUIRE((b.edges.at(std::abs(d)).flags & all) == all, "flags of the merged edges lost");
    // every edge still leads from the branching to its end along its own last segment
    for(int i = 0; i < n; ++i)
    {
        bool found = false;
        for(auto const &e : b.edges)
        {
            if(e.second.pts.front() == path[i].back() || e.second.pts.back() == path[i].back())
            {
                found = true; double len = 0; Pts const &p = e.second.pts;
                for(size_t k = 1; k < p.size(); ++k) len += std::hypot(p[k].x - p[k-1].x, p[k].y - p[k-1].y);
                REQUIRE(len < 4 + step && len > 4 - 2 * step - 1e-6, "the remaining part of edge " << label[i] << " has length " << len);
            }
        }
        REQUIRE(found, "no edge leads to the end of edge " << label[i]);
    }
    m.initializeMap(false); REQUIRE(m.checkConsistency() && m.faceCount() == 1, "the map of a tree has " << m.faceCount() << " faces");
    g.classify(pref ? "survivor by preference" : "survivor by curvature"); g.nontrivial(n >= 3);
    (void)gap;
}
PROP(P18, "node with at least three edges to sort (bundles: at least two edges sharing a common beginning)")
{
    if(g.p(1,5)) { survivorCase(g); return; }
    if(g.u(2))
    {   // well separated edges: same result as direct sorting
        GenOpts o; o.maxSteps = 9;
        MapSpec sp = genGraphMap(g, o); g.text << sp.str();
        MapPtr a = buildGraph(sp), b = buildGraph(sp);
        double step = g.pick(std::vector<double>{0.05, 0.1, 0.2}), minD = step / 1000;
        g.text << "stepDist " << step << "\n";
        a->sortEdgesDirectly();
        GeoMap::UnsortableGroups u; bool spl = g.u(2);
        b->sortEdgesEventually(step, minD, u, spl);
        REQUIRE(b->edgesSorted(), "edges not sorted");
        REQUIRE(u.empty(), "unsortable groups reported for edges leaving at different angles");
        Snap x = snap(*a), y = snap(*b);
        int big = 0;
        for(auto const &n : x.nodes) { REQUIRE(canon(n.second.orbit) == canon(y.nodes.at(n.first).orbit), "node " << n.first << ": order of edges differs from direct sorting"); big |= n.second.orbit.size() >= 3; }
        if(spl) { b->splitParallelEdges(); requireUnchanged(x, snap(*b), "splitParallelEdges without parallel edges"); }
        bool li = g.u(2);
        b->initializeMap(li); checkTopology(*b);
        g.classify("separated edges"); g.nontrivial(big);
        return;
    }
    // a bundle: edges from one centre that share beginnings, along a random planar tree
    std::vector<TreeNode> t; t.push_back(TreeNode{P(10, 10), -1, {}});
    Graph gr; gr.v.push_back(P(10, 10));
    int steps = g.i(2, 12);
    for(int k = 0; k < steps; ++k)
    {
        int par = g.u(t.size()); P p = t[par].pos, q(p.x + g.i(-3, 3), p.y + g.i(-3, 3));
        if(gr.find(q) >= 0 || !gr.addSeg(p, q)) continue;
        t.push_back(TreeNode{q, par, {}}); t[par].kids.push_back(t.size() - 1);
    }
    // tree order: children sorted counter-clockwise, beginning at the direction to the parent
    auto ang = [](P o, P q) { return std::atan2(-(q.y - o.y), q.x - o.x); };   // as in the library: y axis points down
    for(size_t i = 0; i < t.size(); ++i)
    {
        double ref = t[i].parent >= 0 ? ang(t[i].pos, t[t[i].parent].pos) : -M_PI;
        auto key = [&](int c) { double d = ang(t[i].pos, t[c].pos) - ref; while(d < 0) d += 2 * M_PI; while(d >= 2 * M_PI) d -= 2 * M_PI; return d; };
        std::sort(t[i].kids.begin(), t[i].kids.end(), [&](int a, int b) { return key(a) < key(b); });
    }
    std::vector<int> order;     // leaves (edge targets) in cyclic order
    std::function<void(int)> dfs = [&](int i) { if(t[i].kids.empty() && i) order.push_back(i); for(int c : t[i].kids) dfs(c); };
    dfs(0);
    if(order.size() < 2) throw pbt::Discard();
    GeoMap m(vigra::Size2D(20, 20));
    GeoMap::NodePtr c = m.addNode(Vector2(10, 10));
    std::vector<int> ins(order); for(size_t i = 0; i + 1 < ins.size(); ++i) std::swap(ins[i], ins[i + g.u(ins.size() - i)]);
    std::map<int, int> dartOf; std::map<int, unsigned> flagOf;
    int twin = g.p(1,4) ? (int)g.u(ins.size()) : -1, copies = 0;      // one edge exists two to four times
    if(twin >= 0) { copies = 1 + g.u(3); for(int k = 0; k < copies; ++k) ins.push_back(ins[twin]); }
    std::vector<int> twinDarts;
    std::map<int, GeoMap::NodePtr> endOf;
    for(int leaf : ins)
    {
        Pts p; for(int i = leaf; i >= 0; i = t[i].parent) p.push_back(t[i].pos);   // leaf .. root
        GeoMap::NodePtr e = endOf.count(leaf) ? endOf[leaf] : m.addNode(toV(p.front())); endOf[leaf] = e;
        if(dartOf.count(leaf)) twinDarts.push_back(dartOf[leaf]);
        bool out = g.u(2); if(out) std::reverse(p.begin(), p.end());
        Vector2Array a; for(auto const &q : p) a.push_back(toV(q));
        GeoMap::EdgePtr ed = out ? m.addEdge(*c, *e, a) : m.addEdge(*e, *c, a);
        dartOf[leaf] = out ? (int)ed->label() : -(int)ed->label();
        unsigned fl = 0x100u << g.u(6); ed->setFlag(fl); flagOf[leaf] = fl;
        g.text << " e" << ed->label() << (out ? " from" : " to") << " centre: " << p << "\n";
    }
    double step = g.pick(std::vector<double>{0.1, 0.2, 0.3}), minD = step / 50;
    bool spl = g.u(2) && twin < 0;
    g.text << "stepDist " << step << " split " << spl << "\n";
    if(g.u(2)) { g.text << "caches filled\n"; for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it) { (*it)->length(); (*it)->boundingBox(); (*it)->partialArea(); (*it)->scanLines(); } }
    GeoMap::UnsortableGroups u;
    m.sortEdgesEventually(step, minD, u, spl);
    std::vector<int> want, got = snap(m).nodes.at(c->label()).orbit;
    if(twin < 0) REQUIRE(u.empty(), "unsortable groups reported although all edges diverge");
    else
    {
        int d = dartOf[ins[twin]]; std::set<std::set<int> > wantU, gotU; std::set<int> w1, w2;
        w1.insert(d); w2.insert(-d); for(int x : twinDarts) { w1.insert(x); w2.insert(-x); }
        wantU.insert(w1); wantU.insert(w2);
        for(auto const &x : u) gotU.insert(std::set<int>(x.begin(), x.end()));
        REQUIRE(gotU == wantU && u.size() == 2, "unsortable groups: " << u.size() << " instead of the two ends of the " << copies + 1 << " identical edges incl. " << d);
        // the identical edges are neighbours
        size_t n = got.size(), runs = 0;
        for(size_t i = 0; i < n; ++i) runs += w1.count(got[i]) && !w1.count(got[(i + 1) % n]);
        REQUIRE(runs <= 1, "identical edges are not neighbours at the centre");
        got.erase(std::remove_if(got.begin(), got.end(), [&](int x) { return x != d && w1.count(x); }), got.end());
        g.classify("more than two identical edges", copies > 1);
        g.classify("identical edges");
    }
    for(int leaf : order) want.push_back(dartOf[leaf]);
    { std::ostringstream w, o; for(int x : canon(want)) w << " " << x; for(int x : canon(got)) o << " " << x;
      REQUIRE(canon(got) == canon(want), "order around the centre is" << o.str() << " instead of" << w.str()); }
    bool shared = false; for(size_t i = 1; i < t.size(); ++i) if(t[i].kids.size() > 1) shared = true;
    g.classify("bundle with common beginnings", shared);
    if(spl)
    {
        m.splitParallelEdges();
        REQUIRE(m.checkConsistency(), "checkConsistency() fails after splitParallelEdges");
        Snap b = snap(m);
        // expected: the tree with chains contracted; where more than two edges diverge, they may do so one after the other
        unsigned branch = 0, most = 0; for(size_t i = 1; i < t.size(); ++i) if(t[i].kids.size() > 1) { ++branch; most += t[i].kids.size() - 1; }
        REQUIRE(b.nodes.size() >= order.size() + 1 + branch && b.nodes.size() <= order.size() + 1 + most, "splitParallelEdges: " << b.nodes.size() << " nodes instead of " << order.size() + 1 + branch << ".." << order.size() + 1 + most);
        REQUIRE(b.edges.size() + 1 == b.nodes.size(), "splitParallelEdges: " << b.edges.size() << " edges connect " << b.nodes.size() << " nodes");
        // walk around the contour of the tree: the leaves appear in order
        std::vector<P> seq, wantSeq;
        int start = b.nodes.at(c->label()).orbit[0], d = start; int guard = 0;
        // beyond the last common point, edges may still run in parallel for up to stepDist
        do
        {
            GeoMap::Dart x = m.dart(d); CellLabel en = x.endNodeLabel();
            if(en != c->label() && b.nodes.at(en).orbit.size() == 1) seq.push_back(b.nodes.at(en).pos);
            x.nextPhi(); d = x.label(); REQUIRE(++guard < 1000, "contour does not close");
        } while(d != start);
        for(int leaf : order) wantSeq.push_back(t[leaf].pos);
        auto can = [](std::vector<P> v) { std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end()); return v; };
        REQUIRE(seq.size() == wantSeq.size(), "contour passes " << seq.size() << " end nodes instead of " << wantSeq.size());
        std::vector<P> rs = seq; std::reverse(rs.begin(), rs.end());
        REQUIRE(can(seq) == can(wantSeq) || can(rs) == can(wantSeq), "cyclic order of the end nodes changed by splitting and merging");
        // every branching point is represented by a node within stepDist
        for(size_t i = 1; i < t.size(); ++i) if(t[i].kids.size() > 1)
        {
            double best = 1e9; for(auto const &n : b.nodes) best = std::min(best, std::hypot(n.second.pos.x - t[i].pos.x, n.second.pos.y - t[i].pos.y));
            REQUIRE(best < 2 * step + 1e-6, "no node near the branching point " << t[i].pos << " (nearest at distance " << best << ")");
        }
        // flags of merged edges are propagated
        for(auto const &e : b.edges)
            for(int leaf : order) if(b.nodes.at(e.second.s).pos == t[leaf].pos || b.nodes.at(e.second.e).pos == t[leaf].pos)
                REQUIRE((e.second.flags & flagOf[leaf]) == flagOf[leaf], "flags of the edge to " << t[leaf].pos << " lost");
        for(auto const &e : b.edges)
            REQUIRE(e.second.pts.front() == b.nodes.at(e.second.s).pos && e.second.pts.back() == b.nodes.at(e.second.e).pos, "edge " << e.first << " does not start/end at its nodes");
        for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
        {
            Pts const &p = b.edges.at((*it)->label()).pts; double len = 0, x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
            for(size_t i = 0; i < p.size(); ++i) { if(i) len += std::hypot(p[i].x - p[i-1].x, p[i].y - p[i-1].y); x0 = std::min(x0, p[i].x); x1 = std::max(x1, p[i].x); y0 = std::min(y0, p[i].y); y1 = std::max(y1, p[i].y); }
            REQUIRE(std::abs((*it)->length() - len) < 1e-6, "length of edge " << (*it)->label() << " is " << (*it)->length() << " instead of " << len);
            GeoMap::Edge::BoundingBox bb = (*it)->boundingBox();
            REQUIRE(bb.begin()[0] == x0 && bb.end()[0] == x1 && bb.begin()[1] == y0 && bb.end()[1] == y1, "bounding box of edge " << (*it)->label());
            REQUIRE((*it)->scanLines().startIndex() == (int)std::floor(y0 + 0.5) && (*it)->scanLines().endIndex() == (int)std::floor(y1 + 0.5) + 1, "scanlines of edge " << (*it)->label());
        }
        m.initializeMap(false); REQUIRE(m.checkConsistency() && m.faceCount() == 1, "the map of a tree has " << m.faceCount() << " faces");
        g.classify("split and merged", branch > 0);
    }
    g.nontrivial(order.size() >= 3 && shared);
}

/********************************************************************/
/*                              P26                                 */
/********************************************************************/
typedef vigra::DigitalStraightLine<int, true> DSL8;
typedef vigra::DigitalStraightLine<int, false> DSL4;
typedef std::pair<int,int> IP;
static bool isDSS(std::vector<IP> const &p, int *A = 0, int *B = 0)
{   // 8-connected, first octant
    int n = p.size();
    for(int b = 1; b <= n; ++b) for(int a = 0; a <= b; ++a)
    {
        int lo = INT_MAX, hi = INT_MIN;
        for(auto const &q : p) { int v = a * q.first - b * q.second; lo = std::min(lo, v); hi = std::max(hi, v); }
        if(hi - lo < b) { if(A) { *A = a; *B = b; } return true; }
    }
    return false;
}
PROP(P26, "a tangent longer than one step, or at least two points added")
{
    int kind = g.u(4);
    if(kind == 0)
    {   // geometry of lines
        int b = g.i(1, 9), a = g.i(0, b), pos = g.i(-12, 12);
        DSL8 l(a, b, pos); g.text << "line " << a << " " << b << " " << pos << "\n"; g.classify("line geometry");
        DSL8 mx(l), my(l), mxy(l); mx.mirrorX(); my.mirrorY(); mxy.mirrorXY(); DSL4 f = l.convertToFourConnected();
        REQUIRE(l.eightConnected() && !f.eightConnected(), "connectivity");
        for(int x = -8; x <= 8; ++x)
        {
            int cnt = 0, c4 = 0;
            for(int y = -30; y <= 30; ++y)
            {
                int v = a * x - b * y - pos; bool in = v >= 0 && v < std::max(a, b);
                cnt += in;
                REQUIRE(l.contains(x, y) == in, "contains(" << x << "," << y << ")");
                REQUIRE(mx.contains(-x, y) == in && my.contains(x, -y) == in && mxy.contains(-x, -y) == in, "mirrored line at " << x << "," << y);
                REQUIRE(f.contains(x - y, y) == in, "four-connected line at " << x << "," << y);
            }
            REQUIRE(cnt == 1, "column " << x << " of an 8-connected line has " << cnt << " points");
        }
        REQUIRE(l.slope() == vigra::Rational<int>(a, b), "slope");
        REQUIRE(f.width() == l.width(), "width");
        REQUIRE(l.axisIntercept(vigra::DSL::UpperLeaningLine) == vigra::Rational<int>(-pos, b), "upper axis intercept");
        REQUIRE(l.axisIntercept(vigra::DSL::LowerLeaningLine) == vigra::Rational<int>(-(pos + b - 1), b), "lower axis intercept");
        REQUIRE(l.axisIntercept() * 2 == l.axisIntercept(vigra::DSL::UpperLeaningLine) + l.axisIntercept(vigra::DSL::LowerLeaningLine), "centre axis intercept");
        {   // lines of any slope, both connectivities
            int A = g.i(-9, 9), B = g.i(-9, 9), Q = g.i(-12, 12); if(!A && !B) B = 1;
            g.text << "line " << A << " " << B << " " << Q << "\n";
            DSL8 l8(A, B, Q), m8[3] = { l8, l8, l8 }; DSL4 l4(A, B, Q), m4[3] = { l4, l4, l4 };
            m8[0].mirrorX(); m8[1].mirrorY(); m8[2].mirrorXY(); m4[0].mirrorX(); m4[1].mirrorY(); m4[2].mirrorXY();
            int w8 = std::max(std::abs(A), std::abs(B)), w4 = std::abs(A) + std::abs(B);
            REQUIRE(l8.width() == w8 && l4.width() == w4, "widths " << l8.width() << " and " << l4.width());
            for(int x = -6; x <= 6; ++x) for(int y = -6; y <= 6; ++y)
            {
                int v = A * x - B * y - Q; bool i8 = v >= 0 && v < w8, i4 = v >= 0 && v < w4;
                REQUIRE(l8.contains(x, y) == i8 && l4.contains(x, y) == i4, "contains(" << x << "," << y << ")");
                for(int k = 0; k < 3; ++k)
                {
                    int X = k != 1 ? -x : x, Y = k != 0 ? -y : y;
                    REQUIRE(m8[k].contains(X, Y) == i8 && m4[k].contains(X, Y) == i4, "mirrored line (" << k << ") at " << x << "," << y);
                }
            }
        }
        g.nontrivial(false);
        return;
    }
    auto slopeSeq = [&](int n) { std::vector<int> s; int mode = g.u(3), A = g.i(0, 7), B = g.i(std::max(A, 1), 8), off = g.u(8);
        for(int i = 0; i < n; ++i) s.push_back(mode == 0 ? (int)g.u(2) : ((A * (i + 1) + off) / B - (A * i + off) / B)); if(mode == 2 && n) s[g.u(n)] ^= 1; return s; };
    if(kind == 1)
    {   // growing a segment at one end
        int n = g.i(1, 24); std::vector<int> s = slopeSeq(n); bool neg = g.u(2);
        DSL8 l(s[0], 1, 0); std::vector<IP> pts(1, IP(0, 0)); int x = 0, y = 0, added = 0;
        g.classify(neg ? "growing backwards" : "growing forwards");
        for(int i = 0; i < n; ++i)
        {
            x += neg ? -1 : 1; y += neg ? -s[i] : s[i]; 
            g.text << "addPoint(" << x << "," << y << ")\n";
            std::vector<IP> q(pts); q.push_back(IP(x, y));
            bool w = isDSS(q); DSL8 old(l);
            bool r = l.addPoint(x, y);
            REQUIRE(r == w, "addPoint(" << x << "," << y << ") returned " << r << " but the points " << (w ? "form" : "do not form") << " a digital straight segment");
            if(!r) { REQUIRE(l.a() == old.a() && l.b() == old.b() && l.pos() == old.pos(), "refused addPoint changed the line"); break; }
            pts = q; ++added;
            for(auto const &p : pts) REQUIRE(l.contains(p.first, p.second), "line " << l.a() << "," << l.b() << "," << l.pos() << " does not contain " << p.first << "," << p.second);
        }
        g.nontrivial(added >= 2);
        return;
    }
    // tangents of curves given by Freeman codes
    bool closed = g.u(2);
    std::vector<unsigned char> c;
    int rot = g.u(4);
    if(closed)
    {   // four staircases
        int A = g.i(1, 7), B = g.i(1, 7);
        for(int q = 0; q < 4; ++q)
        {   // codes q and q+1; odd/even counts balanced: opposite staircases use the same numbers
            int n0 = q % 2 == 0 ? A : B, n1 = q % 2 == 0 ? B : A;
            std::vector<unsigned char> s;
            if(g.u(2)) { int t = n0 + n1; for(int i = 0; i < t; ++i) s.push_back((n1 * (i + 1)) / t - (n1 * i) / t ? (q + 1) % 4 : q); }
            else { s.insert(s.end(), n0, q); s.insert(s.end(), n1, (q + 1) % 4); for(size_t i = 1; i + 1 < s.size(); ++i) if(g.u(3) == 0) std::swap(s[i], s[1 + g.u(s.size() - 2)]); }
            c.insert(c.end(), s.begin(), s.end());
        }
        if(g.u(2)) { std::reverse(c.begin(), c.end()); for(auto &x : c) x = (x + 2) % 4; }
        std::rotate(c.begin(), c.begin() + g.u(c.size()), c.end());
    }
    else
    {
        int n = g.i(2, 30); std::vector<int> s = slopeSeq(n);
        for(int i = 0; i < n; ++i) c.push_back(s[i]);
        for(int i = 1; i < n; ++i) if(g.p(1,14) && c[i-1] != 3 && c[i-1] != 2) { int nw = c[i-1] == 0 ? 3 : 2; if(i + 1 >= n || (c[i+1] + 2) % 4 != nw) c[i] = nw; }
        if(g.u(2)) { std::reverse(c.begin(), c.end()); for(auto &x : c) x = (x + 2) % 4; }
    }
    for(auto &x : c) x = (x + rot) % 4;
    int n = c.size();
    for(int i = 0; i < n - (closed ? 0 : 1); ++i) if((c[i] + 2) % 4 == c[(i+1)%n]) throw pbt::Discard();   // contours do not turn back
    int idx = closed ? g.u(n) : g.i(1, n - 1);
    for(auto x : c) g.text << (int)x; g.text << (closed ? " closed" : " open") << " point " << idx << "\n";
    auto code = [&](int i) { return closed ? (int)c[((i % n) + n) % n] : (int)c[i]; };
    auto valid = [&](int i) { return closed || (i >= 0 && i < n); };
    // the two codes
    int fc1 = code(idx), fc2 = fc1; bool undefined = false;
    for(int k = 1; fc2 == fc1; ++k)
    {
        if(k > n) { undefined = true; break; }
        if(!valid(idx + k - 1) || !valid(idx - k)) { undefined = true; break; }
        int f = code(idx + k - 1), b = code(idx - k);
        if(f != fc1 && b != fc1 && f != b) { undefined = true; break; }
        fc2 = f != fc1 ? f : b;
    }
    int want = 0; std::vector<IP> pts, good;
    if(!undefined)
    {
        pts.push_back(IP(0, 0)); int x1 = 0, y1 = 0, x2 = 0, y2 = 0;
        for(int k = 1; k <= n && valid(idx + k - 1) && valid(idx - k); ++k)
        {
            int f = code(idx + k - 1), b = code(idx - k);
            if((f != fc1 && f != fc2) || (b != fc1 && b != fc2)) break;
            ++x1; y1 += f & 1; --x2; y2 -= b & 1; pts.push_back(IP(x1, y1)); pts.push_back(IP(x2, y2));
            if(!isDSS(pts)) break;
            want = k; good = pts;
        }
    }
    DSL8 t(0, 1, 0);
    int dist = vigra::tangentDSL(c.begin(), c.end(), idx, closed, t);
    REQUIRE(dist == want, "tangent extends over " << dist << " steps instead of " << want);
    for(auto const &p : good) REQUIRE(t.contains(p.first, p.second), "tangent does not contain point " << p.first << "," << p.second);
    g.classify(closed ? "closed contour" : "open curve"); g.classify("long tangent", dist > 3);
    g.nontrivial(dist > 1);
}

/********************************************************************/
/*                              P31                                 */
/********************************************************************/
PROP(P31, "map has at least one finite face")
{
    bool li = g.u(2);
    MapPtr m = genMap(g, li);
    Aspects none; History h(g, m, none);
    if(g.u(2)) h.run(6);
    bool neg = g.u(2);
    int W = m->imageSize().x, H = m->imageSize().y;
    if(g.p(1,4)) { W = g.i(1, 16); H = g.i(1, 16); g.text << "destination " << W << "x" << H << "\n"; }
    g.text << "drawLabelImage(negativeEdgeLabels=" << neg << ")\n";
    vigra::MultiArray<2, int> img(vigra::MultiArray<2, int>::difference_type(W, H));
    drawLabelImage(*m, destMultiArrayRange(img), neg);
    Snap s = snap(*m); Embedding em(s); std::map<int, CellLabel> ol = orbitLabels(em, s);
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x)
    {
        int lo = 0, hi = 0;
        for(auto const &e : s.edges) { lo |= polyInBox(e.second.pts, x, y, axisParallel(e.second.pts) ? 0.5 : 0.5 - 1e-7); hi |= polyInBox(e.second.pts, x, y, axisParallel(e.second.pts) ? 0.5 : 0.5 + 1e-7); }
        int got = img(x, y);
        if(em.onEdge(P(x, y)) && !neg) continue;
        int face = em.onEdge(P(x, y)) ? -9 : (int)ol[em.locate(P(x, y))];
        if(neg) { if(lo) REQUIRE(got == -1, "pixel " << x << "," << y << " crossed by an edge is " << got); else if(!hi) REQUIRE(got == face, "pixel " << x << "," << y << " is " << got << " but lies in face " << face); else REQUIRE(got == -1 || got == face, "pixel " << x << "," << y << " is " << got); }
        else REQUIRE(got == face, "pixel " << x << "," << y << " is " << got << " but its centre lies in face " << face);
    }
    g.classify(neg ? "negative edge labels" : "no edge labels");
    g.nontrivial(s.faces.size() > 1);
}

int main(int argc, char **argv) { return pbt::main_(argc, argv); }
