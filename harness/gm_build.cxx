// P07 point location, P08 construction, P09 crack edge maps
#include "gm_ops.hxx"
using namespace gm;

/********************************************************************/
PROP(P07, "at least 6 query points strictly inside faces, map with >= 2 faces")
{
    bool li = g.u(2);
    MapPtr m = genMap(g, li);
    if(g.u(2)) { History h(g, m, Aspects()); h.allowIllegal = false; h.run(6); }
    Snap s = snap(*m); Embedding em(s);
    std::map<int, CellLabel> ol = orbitLabels(em, s);
    int n = 0; std::set<CellLabel> hit;
    int W = m->imageSize().x, H = m->imageSize().y;
    int nq = g.i(4, 24);
    GeoMap const &cm(*m);
    for(int k = 0; k < nq; ++k)
    {
        double x, y; int kind = g.u(4);
        if(kind == 0) { x = g.u(W); y = g.u(H); }
        else if(kind == 1) { x = -2 + g.u(8*(W+4)) / 8.0; y = -2 + g.u(8*(H+4)) / 8.0; }
        else if(kind == 2 && s.nodes.size())
        {   // close to / level with a node
            auto it = s.nodes.begin(); std::advance(it, g.u(s.nodes.size()));
            x = it->second.pos.x + g.i(-24, 24) / 8.0; y = it->second.pos.y + (g.u(2) ? 0 : g.i(-4, 4) / 16.0);
        }
        else { x = -0.5 + g.u(32*W) / 32.0; y = -0.5 + g.u(32*H) / 32.0; }
        P q(x, y);
        if(em.onEdge(q)) continue;
        ++n;
        CellLabel want = ol[em.locate(q)];
        hit.insert(want);
        g.text << "query " << q << "\n";
        CellLabel got = m->faceAt(toV(q))->label();
        REQUIRE(got == want, "faceAt(" << q << ") is face " << got << ", but the point lies in face " << want);
        REQUIRE(cm.faceAt(toV(q))->label() == want, "const faceAt(" << q << ")");
        for(auto const &f : s.faces)
            REQUIRE(m->face(f.first)->contains(toV(q)) == (f.first == want),
                    "face(" << f.first << ").contains(" << q << ") is wrong, the point lies in face " << want);
    }
    if(!li && g.p(1, 2) && s.nodes.size())
    {   // move nodes (positions stay distinct) and remove isolated ones
        for(int k = g.i(1, 4); k > 0; --k)
        {
            auto it = s.nodes.begin(); std::advance(it, g.u(s.nodes.size()));
            P q(it->second.pos.x + g.i(-40, 40) / 16.0 + 1 / 64., it->second.pos.y + g.i(-40, 40) / 16.0);
            bool clash = false; for(auto const &x : s.nodes) if(x.first != it->first && std::hypot(x.second.pos.x - q.x, x.second.pos.y - q.y) < 1e-3) clash = true;
            if(clash) continue;
            g.text << "setPosition(node " << it->first << "," << q << ")\n"; g.classify("node moved");
            m->node(it->first)->setPosition(toV(q));
            if(it->second.orbit.empty() && g.p(1, 3)) { g.text << "removeIsolatedNode\n"; m->removeIsolatedNode(*m->node(it->first)); }
            s = snap(*m);
            if(s.nodes.empty()) break;
        }
    }
    int nn = g.i(1, 6);
    for(int k = 0; k < nn; ++k)
    {
        P q(-2 + g.u(8*(W+4)) / 8.0, -2 + g.u(8*(H+4)) / 8.0);
        double best = 1e300;
        std::vector<double> ds;
        for(auto const &x : s.nodes) { double dx = x.second.pos.x-q.x, dy = x.second.pos.y-q.y; ds.push_back(dx*dx+dy*dy); best = std::min(best, ds.back()); }
        g.text << "nearestNode " << q << "\n";
        GeoMap::NodePtr r = m->nearestNode(toV(q));
        REQUIRE((bool)r == !s.nodes.empty(), "nearestNode(" << q << ") found " << (r ? "a" : "no") << " node");
        if(r)
        {
            REQUIRE(s.nodes.count(r->label()), "nearestNode returned a removed node");
            double dx = r->position()[0]-q.x, dy = r->position()[1]-q.y;
            REQUIRE(near(dx*dx+dy*dy, best, 1e-12), "nearestNode(" << q << ") is node " << r->label() << " at squared distance " << dx*dx+dy*dy << ", but one is at " << best);
        }
        double lim = g.pick(std::vector<double>{0.25, 1.0, 2.5, 9.0}) ;
        if(s.nodes.size() && std::fabs(best - lim) < 1e-9) continue;
        GeoMap::NodePtr r2 = m->nearestNode(toV(q), lim);
        REQUIRE((bool)r2 == (s.nodes.size() && best < lim), "nearestNode(" << q << "," << lim << ") " << (r2 ? "found a" : "missed the") << " node at squared distance " << best);
        if(r2) { double dx = r2->position()[0]-q.x, dy = r2->position()[1]-q.y; REQUIRE(near(dx*dx+dy*dy, best, 1e-12), "nearestNode(" << q << "," << lim << ") not nearest"); }
    }
    g.classify("label image", li);
    g.classify("points in >= 3 faces", hit.size() >= 3);
    g.nontrivial(n >= 6 && s.faces.size() >= 2);
}

/********************************************************************/
// P08: construction
struct Cell2 { std::set<std::pair<P,P> > segs; };

PROP(P08, "map with >= 3 edges, and an edge deleted, split or merged before initialization or >= 2 faces")
{
    if(g.p(1, 40))
    {   // edges that leave a node in identical directions cannot be sorted directly
        MapPtr m(new GeoMap(vigra::Size2D(12, 12)));
        P c(g.i(3, 8), g.i(3, 8)); GeoMap::NodePtr n = m->addNode(toV(c));
        std::vector<P> dirs{P(1,0), P(1,1), P(0,1), P(-1,1), P(-1,0), P(-1,-1), P(0,-1), P(1,-1), P(2,1), P(-1,2), P(1,-2)};
        int same = g.u(dirs.size()), k = g.i(2, 5); bool twice = g.u(3);
        std::set<int> used;
        for(int i = 0; i < k; ++i)
        {
            int d = i < 2 && twice ? same : (int)g.u(dirs.size());
            if(!(i < 2 && twice) && (d == same || used.count(d))) continue;
            used.insert(d);
            double f = i == 1 && twice ? 2 : 1;
            P a(c.x + f*dirs[d].x, c.y + f*dirs[d].y), e(a.x + (i + 1) / 8.0, a.y - 0.25);
            GeoMap::NodePtr en = m->addNode(toV(e));
            Vector2Array pts; pts.push_back(toV(c)); pts.push_back(toV(a)); pts.push_back(toV(e));
            if(g.u(2)) { std::reverse(pts.begin(), pts.end()); m->addEdge(*en, *n, pts); } else m->addEdge(*n, *en, pts);
            g.text << pts.size() << " points from " << c << " via " << a << " to " << e << "\n";
        }
        bool init = g.u(2), thrown = false;
        try { if(init) m->initializeMap(g.u(2)); else m->sortEdgesDirectly(); } catch(vigra::PreconditionViolation &) { thrown = true; }
        REQUIRE(thrown == twice, (init ? "initializeMap" : "sortEdgesDirectly") << (twice ? " accepts edges leaving a node in identical directions" : " refuses edges leaving a node in different directions"));
        if(thrown) REQUIRE(!m->edgesSorted() && !m->mapInitialized(), "map counts as sorted or initialized after sorting failed");
        g.classify("identical directions", twice);
        return;
    }
    GenOpts o;
    MapSpec sp = genGraphMap(g, o);
    g.text << sp.str();
    MapPtr m = buildGraph(sp);
    bool pre = false;
    REQUIRE(!m->mapInitialized(), "mapInitialized() before initializeMap");
    auto checkUnsorted = [&]() {   // permutation structure is intact although not sorted yet
        Snap s = snap(*m);
        std::set<int> seen;
        for(auto const &n : s.nodes) for(int d : n.second.orbit)
        {
            REQUIRE(s.edges.count(std::abs(d)), "orbit of node " << n.first << " contains removed dart " << d);
            REQUIRE((d > 0 ? s.edges.at(d).s : s.edges.at(-d).e) == n.first, "dart " << d << " in the orbit of a foreign node " << n.first);
            REQUIRE(seen.insert(d).second, "dart " << d << " twice");
            REQUIRE(m->dart(d).nextSigma().prevSigma().label() == d, "sigma inverse of dart " << d);
        }
        REQUIRE(seen.size() == 2*s.edges.size(), "darts missing in sigma orbits");
        REQUIRE(m->nodeCount() == s.nodes.size() && m->edgeCount() == s.edges.size(), "cell counts");
        return s;
    };
    Snap s0 = checkUnsorted();
    REQUIRE(s0.edges.size() == sp.edges.size() && s0.nodes.size() == sp.nodes.size(), "cells missing after construction");
    {   // cells carry the geometry that was passed in
        auto it = s0.edges.begin();
        for(size_t i = 0; i < sp.edges.size(); ++i, ++it)
            REQUIRE(it->second.pts == sp.edges[i].pts, "polyline of edge " << it->first);
        auto nt = s0.nodes.begin();
        for(size_t i = 0; i < sp.nodes.size(); ++i, ++nt)
            REQUIRE(nt->second.pos == sp.nodes[i], "position of node " << nt->first);
    }
    bool sorted = false;
    int nOps = g.u(6);
    for(int k = 0; k < nOps; ++k)
    {
        Snap a = snap(*m);
        if(a.nodes.size() && g.p(1, 6))
        {   // move a node away and back: the ends of its edges follow, nothing else changes
            auto it = a.nodes.begin(); std::advance(it, g.u(a.nodes.size()));
            P home = it->second.pos, q(home.x + g.i(-9, 9) / 8.0, home.y + g.i(-9, 9) / 8.0 + 1/64.);
            bool clash = false; for(auto const &x : a.nodes) if(x.first != it->first && x.second.pos == q) clash = true;
            if(!clash)
            {
                g.text << "node " << it->first << " moved to " << q << " and back\n"; g.classify("node moved before initialization");
                if(g.u(2)) for(auto const &e : a.edges) { m->edge(e.first)->length(); m->edge(e.first)->boundingBox(); if(g.u(2)) m->edge(e.first)->partialArea(); if(g.u(2)) m->edge(e.first)->scanLines(); }
                for(int back = 0; back < 2; ++back)
                {
                    P to = back ? home : q;
                    m->node(it->first)->setPosition(toV(to));
                    Snap b = checkUnsorted();
                    REQUIRE(b.nodes.size() == a.nodes.size() && b.edges.size() == a.edges.size(), "moving a node changed the number of cells");
                    for(auto const &n : b.nodes) REQUIRE(n.second.pos == (n.first == it->first ? to : a.nodes.at(n.first).pos), "position of node " << n.first);
                    for(auto const &e : b.edges)
                    {
                        Pts w = a.edges.at(e.first).pts;
                        if(e.second.s == it->first) w.front() = to;
                        if(e.second.e == it->first) w.back() = to;
                        REQUIRE(e.second.pts == w, "edge " << e.first << " is " << e.second.pts << " instead of " << w << " after node " << it->first << " was moved");
                        checkEdgeGeometry(*m, e.first, w);
                    }
                    GeoMap::NodePtr nn = m->nearestNode(toV(to), 1e-12);
                    REQUIRE(nn && nn->label() == it->first, "moved node is not found at its position");
                }
            }
        }
        int op = g.u(8);
        if(op <= 1)
        {
            if(a.edges.empty()) continue;
            auto it = a.edges.begin(); std::advance(it, g.u(a.edges.size()));
            bool neg = g.u(2);
            g.text << "graph removeEdge(" << (neg ? "-" : "") << it->first << ")\n";
            GeoMap::FacePtr f = m->removeEdge(m->dart(neg ? -(int)it->first : (int)it->first));
            REQUIRE(!f, "removeEdge of a graph returned a face");
            Snap b = checkUnsorted();
            REQUIRE(!b.edges.count(it->first) && b.edges.size() + 1 == a.edges.size(), "graph removeEdge");
            for(auto const &e : b.edges) REQUIRE(sameEdge(e.second, a.edges.at(e.first)), "edge " << e.first << " changed by removeEdge");
            REQUIRE(b.nodes.size() == a.nodes.size(), "removeEdge of a graph removed a node");
            pre = true;
        }
        else if(op == 2)
        {
            if(a.edges.empty()) continue;
            auto it = a.edges.begin(); std::advance(it, g.u(a.edges.size()));
            unsigned n = it->second.pts.size(), seg = g.u(n - 1);
            P p0 = it->second.pts[seg], p1 = it->second.pts[seg+1]; P pt((p0.x+p1.x)/2, (p0.y+p1.y)/2);
            g.text << "graph splitEdge(" << it->first << "," << seg << "," << pt << ")\n";
            History h(g, m, Aspects()); h.as.sem = true; h.doSplit(it->first, seg, true, pt, a);
            checkUnsorted(); pre = true;
        }
        else if(op == 3)
        {
            auto v = deg2(a); if(v.empty()) continue;
            CellLabel n = g.pick(v); int w = g.u(2);
            g.text << "graph mergeEdges(" << a.nodes.at(n).orbit[w] << ")\n";
            History h(g, m, Aspects()); h.as.sem = true; h.doMergeEdges(n, w, a);
            checkUnsorted(); pre = true;
        }
        else if(op == 4)
        {
            auto v = isolatedNodes(a); if(v.empty()) continue;
            CellLabel n = g.pick(v);
            g.text << "graph removeIsolatedNode(" << n << ")\n";
            REQUIRE(m->removeIsolatedNode(*m->node(n)), "removeIsolatedNode");
            Snap b = checkUnsorted(); REQUIRE(!b.nodes.count(n) && b.nodes.size() + 1 == a.nodes.size(), "removeIsolatedNode");
        }
        else if((op == 5 || (op > 5 && g.p(1,3))) && !sorted)
        {
            g.text << "sortEdgesDirectly\n";
            m->sortEdgesDirectly(); sorted = true;
            REQUIRE(m->edgesSorted(), "edgesSorted() after sorting");
            Snap s = checkUnsorted(); Embedding em(s); checkGraph(*m, s, em);
        }
        else if(op >= 6 && a.nodes.size() >= 2 && a.edges.size())
        {   // add an edge again (between nodes of a removed one)
            Graph gr; std::map<P,int> at;
            for(auto const &n : a.nodes) gr.v.push_back(n.second.pos);
            bool dup = false;
            for(auto const &e : a.edges) for(size_t i = 1; i < e.second.pts.size(); ++i)
            {
                P p = e.second.pts[i-1], q = e.second.pts[i];
                if(gr.find(p) < 0) gr.v.push_back(p);
                if(gr.find(q) < 0) gr.v.push_back(q);
                gr.s.push_back(std::make_pair(gr.find(p), gr.find(q)));
            }
            auto i1 = a.nodes.begin(), i2 = a.nodes.begin(); std::advance(i1, g.u(a.nodes.size())); std::advance(i2, g.u(a.nodes.size()));
            if(g.p(1,3)) i2 = i1;
            P o = i1->second.pos, d1, d2;
            Vector2Array pa; pa.push_back(toV(o));
            if(i1 == i2)
            {   // loop: a triangle at the node
                d1 = P(g.i(-6, 6) / 4.0, g.i(-6, 6) / 4.0); d2 = P(g.i(-6, 6) / 4.0, g.i(-6, 6) / 4.0);
                if(d1.x*d2.y - d1.y*d2.x == 0) continue;
                P p(o.x + d1.x, o.y + d1.y), q(o.x + d2.x, o.y + d2.y);
                if(!gr.addSeg(o, p) || !gr.addSeg(p, q) || !gr.addSeg(q, o)) continue;
                pa.push_back(toV(p)); pa.push_back(toV(q));
            }
            else
            {
                if(!gr.addSeg(o, i2->second.pos)) continue;
                d1 = P(i2->second.pos.x-o.x, i2->second.pos.y-o.y); d2 = P(-d1.x, -d1.y);
            }
            pa.push_back(toV(i2->second.pos));
            if(sorted)
            {   // sigma position must be given by darts: insert before the counter-clockwise next dart
                auto successor = [&](ENode const &n, P dir) {
                    double a0 = std::atan2(-dir.y, dir.x); int best = 0; double bd = 1e9;
                    for(int d : n.orbit)
                    {
                        Pts p = a.edges.at(std::abs(d)).pts; if(d < 0) std::reverse(p.begin(), p.end());
                        double an = std::atan2(-(p[1].y-p[0].y), p[1].x-p[0].x) - a0; while(an <= 0) an += 2*M_PI;
                        if(an < bd) { bd = an; best = d; }
                    }
                    return best;
                };
                int s1 = i1->second.isolated ? 0 : successor(i1->second, d1), s2 = i2->second.isolated ? 0 : successor(i2->second, d2);
                if(i1 == i2 && s1 == s2 && s1)
                {   // both ends in the same gap: only loops without other darts inside are expressible
                    bool inside = false; double t = d1.x*d2.y - d1.y*d2.x;
                    for(int d : i1->second.orbit)
                    {
                        Pts p = a.edges.at(std::abs(d)).pts; if(d < 0) std::reverse(p.begin(), p.end());
                        P w(p[1].x-o.x, p[1].y-o.y);
                        double u = (w.x*d2.y - w.y*d2.x) / t, v = (d1.x*w.y - d1.y*w.x) / t;
                        if(u >= 0 && v >= 0) inside = true;
                    }
                    if(inside) continue;
                }
                g.classify("loop added at a sorted node", i1 == i2);
                g.text << "addEdge(" << i1->first << "," << i2->first << ") before darts " << s1 << "," << s2 << "\n";
                GeoMap::SigmaAnchor a1 = s1 ? GeoMap::SigmaAnchor(m->dart(s1)) : GeoMap::SigmaAnchor(*m->node(i1->first));
                GeoMap::SigmaAnchor a2 = s2 ? GeoMap::SigmaAnchor(m->dart(s2)) : GeoMap::SigmaAnchor(*m->node(i2->first));
                m->addEdge(a1, a2, pa);
                Snap s = checkUnsorted(); Embedding em(s); checkGraph(*m, s, em);
            }
            else
            {
                g.text << "addEdge(" << i1->first << "," << i2->first << ")\n";
                m->addEdge(*m->node(i1->first), *m->node(i2->first), pa);
                checkUnsorted();
            }
            pre = true;
        }
    }
    Snap a = snap(*m);
    bool li = g.u(2);
    if(!sorted && g.u(2)) { m->sortEdgesDirectly(); g.text << "sort\n"; }
    m->initializeMap(li);
    g.text << "initializeMap(" << li << ")\n";
    REQUIRE(m->mapInitialized() && m->edgesSorted(), "state after initializeMap");
    REQUIRE(m->hasLabelImage() == li, "hasLabelImage");
    Snap b = snap(*m);
    REQUIRE(a.nodes.size() == b.nodes.size() && a.edges.size() == b.edges.size(), "initializeMap changed nodes or edges");
    for(auto const &e : a.edges) REQUIRE(b.edges.count(e.first) && b.edges[e.first].pts == e.second.pts && b.edges[e.first].s == e.second.s && b.edges[e.first].e == e.second.e, "initializeMap changed edge " << e.first);
    for(auto const &n : a.nodes) REQUIRE(b.nodes.count(n.first) && b.nodes[n.first].pos == n.second.pos, "initializeMap changed node " << n.first);
    checkTopology(*m);
    checkGeometry(*m);
    if(!li) { m->setHasLabelImage(true); g.text << "setHasLabelImage\n"; }
    checkLabelImage(*m);
    // the same plane description from the same graph built in another order
    MapSpec s2; s2.W = sp.W; s2.H = sp.H; s2.crack = false;
    std::map<CellLabel,int> nidx;
    std::vector<CellLabel> order; for(auto const &n : b.nodes) order.push_back(n.first);
    if(g.u(2)) std::reverse(order.begin(), order.end());
    for(CellLabel l : order) { nidx[l] = s2.nodes.size(); s2.nodes.push_back(b.nodes[l].pos); s2.nodeGap.push_back(0); }
    bool rev = g.u(2);
    for(auto it = b.edges.rbegin(); it != b.edges.rend(); ++it)
    {
        EdgeSpec e; e.s = nidx[it->second.s]; e.e = nidx[it->second.e]; e.pts = it->second.pts;
        if(rev) { std::reverse(e.pts.begin(), e.pts.end()); std::swap(e.s, e.e); }
        s2.edges.push_back(e); s2.edgeGap.push_back(0);
    }
    MapPtr m2 = buildGraph(s2);
    if(s2.edges.size() && g.u(2))
    {   // pass the known sigma orbits instead of sorting
        int N = b.edges.size(), pad = g.u(4);
        std::map<int,int> dm; int k = 0;
        for(auto it = b.edges.rbegin(); it != b.edges.rend(); ++it) { ++k; dm[it->first] = rev ? -k : k; dm[-(int)it->first] = rev ? k : -k; }
        GeoMap::SigmaMapping sm(2*(N + pad) + 1, 0);
        for(auto const &n : b.nodes) for(size_t i = 0; i < n.second.orbit.size(); ++i)
            sm[N + pad + dm[n.second.orbit[i]]] = dm[n.second.orbit[(i+1) % n.second.orbit.size()]];
        bool so = g.u(2);
        m2->setSigmaMapping(sm, so);
        REQUIRE(m2->edgesSorted() == so, "setSigmaMapping(sorted)");
        for(auto const &n : b.nodes) for(size_t i = 0; i < n.second.orbit.size(); ++i)
        {
            int d = dm[n.second.orbit[i]], e = dm[n.second.orbit[(i+1) % n.second.orbit.size()]];
            REQUIRE(m2->dart(d).nextSigma().label() == e && m2->dart(e).prevSigma().label() == d, "setSigmaMapping: sigma of dart " << d << " is not " << e);
        }
        g.text << "setSigmaMapping(sorted=" << so << ")\n";
        g.classify("sigma mapping given", true);
    }
    m2->initializeMap(li);
    checkTopology(*m2);
    std::vector<double> A, B;
    for(auto const &f : b.faces) if(f.first) A.push_back(m->face(f.first)->area());
    for(GeoMap::FaceIterator it = m2->finiteFacesBegin(); it.inRange(); ++it) B.push_back((*it)->area());
    std::sort(A.begin(), A.end()); std::sort(B.begin(), B.end());
    REQUIRE(A.size() == B.size(), "insertion order changes the number of faces from " << A.size() << " to " << B.size());
    for(size_t i = 0; i < A.size(); ++i) REQUIRE(near(A[i], B[i]), "insertion order changes face areas");
    g.classify("label image during initialization", li);
    g.classify("hole", [&]{ for(auto const &f : b.faces) if(f.first && f.second.anchors.size() > 1) return true; return false; }());
    g.classify("edited before initialization", pre);
    g.nontrivial(b.edges.size() >= 3 && (pre || b.faces.size() > 1));
}

/********************************************************************/
// P09
struct UF { std::vector<int> p; UF(int n) : p(n) { for(int i = 0; i < n; ++i) p[i] = i; }
    int f(int i) { while(p[i] != i) i = p[i] = p[p[i]]; return i; } void u(int a, int b) { p[f(a)] = f(b); } };

inline UF components(LabelImg const &im)
{
    UF uf(im.W*im.H);
    auto id = [&](int x, int y) { return y*im.W+x; };
    for(int y = 0; y < im.H; ++y) for(int x = 0; x < im.W; ++x)
    {
        if(x+1 < im.W && im(x,y) == im(x+1,y)) uf.u(id(x,y), id(x+1,y));
        if(y+1 < im.H && im(x,y) == im(x,y+1)) uf.u(id(x,y), id(x,y+1));
        if(im.eight && x+1 < im.W && y+1 < im.H)
        {
            int a = im(x,y), b = im(x+1,y), c = im(x,y+1), d = im(x+1,y+1);
            if(a == d && b != a && c != a && !(b == c && b > a)) uf.u(id(x,y), id(x+1,y+1));
            if(b == c && a != b && d != b && !(a == d && a > b)) uf.u(id(x+1,y), id(x,y+1));
        }
    }
    return uf;
}

PROP(P09, "label image with >= 3 regions")
{
    LabelImg im = genLabelImg(g, 9);
    g.text << str(im);
    bool li = g.u(2);
    vigra::IImage img(im.W, im.H);
    for(int y = 0; y < im.H; ++y) for(int x = 0; x < im.W; ++x) img(x, y) = im(x, y);
    CrackEdgeMapGenerator gen(srcImageRange(img), im.eight);
    gen.initializeMap(li);
    std::vector<CellLabel> src(gen.result->maxFaceLabel(), 12345);
    gen.getSourceLabels(std::make_pair(img.upperLeft(), img.accessor()), &src);
    MapPtr m(gen.result.release());
    g.text << (li ? "with label image\n" : "no label image\n");
    checkTopology(*m);
    checkGeometry(*m);
    UF uf = components(im);
    std::map<int, int> size; for(int i = 0; i < im.W*im.H; ++i) ++size[uf.f(i)];
    Snap s = snap(*m);
    REQUIRE(s.faces.size() == size.size() + 1, "image has " << size.size() << " regions, map has " << s.faces.size()-1 << " finite faces");
    std::map<int, CellLabel> faceOf; std::set<CellLabel> used;
    if(!li) REQUIRE(s.li.empty(), "unrequested label image");
    for(int y = 0; y < im.H; ++y) for(int x = 0; x < im.W; ++x)
    {
        int c = uf.f(y*im.W+x);
        CellLabel f = m->faceAt(Vector2(x, y))->label();
        REQUIRE(f != 0, "pixel (" << x << "," << y << ") belongs to the infinite face");
        if(!faceOf.count(c)) { faceOf[c] = f; REQUIRE(used.insert(f).second, "two regions share face " << f); }
        REQUIRE(faceOf[c] == f, "pixel (" << x << "," << y << ") is in face " << f << ", other pixels of its region in face " << faceOf[c]);
        REQUIRE(src[f] == (CellLabel)im(x,y), "source label of face " << f << " is " << src[f] << " instead of " << im(x,y));
        if(li) REQUIRE(s.li[y*im.W+x] == (int)f, "label image at (" << x << "," << y << ") is " << s.li[y*im.W+x] << " instead of " << f);
        REQUIRE(near(m->face(f)->area(), size[c]), "area of face " << f << " is " << m->face(f)->area() << " instead of " << size[c]);
        if(li) REQUIRE((int)m->face(f)->pixelArea() == size[c], "pixelArea of face " << f << " is " << m->face(f)->pixelArea() << " instead of " << size[c]);
    }
    // cracks: every unit crack between different regions exactly once
    typedef std::pair<P,P> Seg;
    std::map<Seg,int> cracks;
    auto crack = [&](double x0, double y0, double x1, double y1) { P a(x0,y0), b(x1,y1); return b < a ? Seg(b,a) : Seg(a,b); };
    for(int y = 0; y < im.H; ++y) for(int x = 0; x < im.W; ++x)
    {
        auto diff = [&](int dx, int dy) { int u = x+dx, v = y+dy; return u < 0 || v < 0 || u >= im.W || v >= im.H || im(u,v) != im(x,y); };
        if(diff(-1,0)) cracks[crack(x-.5,y-.5,x-.5,y+.5)] = 0;
        if(diff(1,0)) cracks[crack(x+.5,y-.5,x+.5,y+.5)] = 0;
        if(diff(0,-1)) cracks[crack(x-.5,y-.5,x+.5,y-.5)] = 0;
        if(diff(0,1)) cracks[crack(x-.5,y+.5,x+.5,y+.5)] = 0;
    }
    for(auto const &e : s.edges)
    {
        for(size_t i = 1; i < e.second.pts.size(); ++i)
        {
            P a = e.second.pts[i-1], b = e.second.pts[i];
            Seg k = b < a ? Seg(b,a) : Seg(a,b);
            REQUIRE(cracks.count(k), "edge " << e.first << " contains " << a << b << " which does not separate regions");
            REQUIRE(++cracks[k] == 1, "crack " << a << b << " is contained twice");
        }
        bool border = !e.second.l || !e.second.r;
        REQUIRE(m->edge(e.first)->flag(GeoMap::Edge::BORDER_PROTECTION) == (border ? GeoMap::Edge::BORDER_PROTECTION : 0), "border protection of edge " << e.first);
    }
    for(auto const &c : cracks) REQUIRE(c.second == 1, "crack " << c.first.first << c.first.second << " is missing");
    int loops = 0;
    for(auto const &n : s.nodes)
    {
        int d = n.second.orbit.size();
        bool loop = d == 2 && std::abs(n.second.orbit[0]) == std::abs(n.second.orbit[1]);
        loops += loop;
        REQUIRE(d >= 3 || loop, "superfluous node " << n.first << " of degree " << d << " at " << n.second.pos);
    }
    bool touching = false;
    { std::map<P,int> deg; for(auto const &c : cracks) { ++deg[c.first.first]; ++deg[c.first.second]; }
      std::set<P> np; for(auto const &n : s.nodes) np.insert(n.second.pos);
      for(auto const &d : deg) if(d.second == 4 && !np.count(d.first)) touching = true; }
    // mid-crack representation
    bool mid = g.p(1,2), deg2 = false;
    if(mid)
    {
        MapPtr mm = buildCrack(im, false);
        int warm = g.u(3);
        for(GeoMap::EdgeIterator it = mm->edgesBegin(); it.inRange(); ++it) { if(warm > 0) { (*it)->length(); (*it)->boundingBox(); } if(warm > 1) { (*it)->partialArea(); (*it)->scanLines(); } }
        if(warm) for(GeoMap::FaceIterator it = mm->finiteFacesBegin(); it.inRange(); ++it) { (*it)->area(); (*it)->boundingBox(); }
        g.text << "crackEdgesToMidcracks, warm " << warm << "\n";
        if(g.p(1,2))
        {   // nodes of degree 2 between different edges arise from merging faces
            for(int k = g.i(1, 4); k > 0; --k)
            {
                std::vector<CellLabel> es; for(GeoMap::EdgeIterator it = mm->edgesBegin(); it.inRange(); ++it) if((*it)->leftFaceLabel() && (*it)->rightFaceLabel() && !(*it)->isBridge()) es.push_back((*it)->label());
                if(es.empty()) break;
                CellLabel l = g.pick(es); g.text << "mergeFaces " << l << "\n";
                REQUIRE(mm->mergeFaces(mm->edge(l)->dart()), "faces at edge " << l << " are not merged");
            }
            s = snap(*mm);
            for(auto const &n : s.nodes) if(n.second.orbit.size() == 2 && std::abs(n.second.orbit[0]) != std::abs(n.second.orbit[1])) deg2 = true;
        }
        crackEdgesToMidcracks(*mm);
        Snap t = snap(*mm);
        REQUIRE(t.edges.size() == s.edges.size() && t.nodes.size() == s.nodes.size(), "mid-crack conversion changed the cell counts");
        for(auto const &e : s.edges)
        {
            Pts const &p = e.second.pts; Pts w; 
            bool lone = e.second.s == e.second.e && s.nodes.at(e.second.s).orbit.size() == 2;
            if(!lone) w.push_back(p[0]);
            for(size_t i = 1; i < p.size(); ++i) w.push_back(P((p[i-1].x+p[i].x)/2, (p[i-1].y+p[i].y)/2));
            if(!lone) w.push_back(p.back());
            else w.insert(w.begin(), w.back());
            REQUIRE(t.edges.at(e.first).pts == w, "mid-crack polyline of edge " << e.first << " is " << t.edges.at(e.first).pts << " instead of " << w);
            REQUIRE(t.nodes.at(e.second.s).pos == w.front() && t.nodes.at(e.second.e).pos == w.back(), "node positions after mid-crack conversion of edge " << e.first);
            GeoMap::NodePtr nn = mm->nearestNode(toV(w.front()), 1e-6);
            REQUIRE(nn, "moved node is not found at its position");
        }
        checkGeometry(*mm);
    }
    g.classify("8-connected", im.eight); g.classify("touching contours without node", touching);
    g.classify("mid-cracks", mid); g.classify("mid-cracks with node of degree 2", deg2); g.classify("isolated regions", loops > 1);
    g.nontrivial(size.size() >= 3);
}

/********************************************************************/
// P44: the consistency check
PROP(P44, "a corruption that destroys the structure of the map, or >= 2 faces and a history of operations")
{
    struct Quiet { std::ostringstream o; std::streambuf *b; Quiet() : b(std::cerr.rdbuf(o.rdbuf())) {} ~Quiet() { std::cerr.rdbuf(b); } } quiet;
    int kind = g.u(8);
    if(kind == 0)
    {   // consistent maps are accepted at every point of a history
        bool li = g.u(2);
        MapPtr m = genMap(g, li);
        REQUIRE(m->checkConsistency(), "a freshly built map is called inconsistent: " << quiet.o.str());
        History h(g, m, Aspects()); int n = 0;
        for(int k = g.i(1, 4); k > 0; --k) { h.run(3); ++n; REQUIRE(m->checkConsistency(), "a valid map is called inconsistent: " << quiet.o.str()); }
        g.classify("consistent history");
        g.nontrivial(n && m->faceCount() >= 2);
        return;
    }
    MapSpec sp = genGraphMap(g, GenOpts());
    g.text << sp.str();
    MapPtr m = buildGraph(sp);
    REQUIRE(m->checkConsistency(), "a valid graph is called inconsistent: " << quiet.o.str());
    m->sortEdgesDirectly();
    REQUIRE(m->checkConsistency(), "a sorted graph is called inconsistent: " << quiet.o.str());
    Snap s = snap(*m);
    if(s.edges.empty()) return;
    GeoMap::SigmaMapping sig(m->sigmaMapping());
    int c = sig.size() / 2;
    std::vector<int> darts; std::map<int, CellLabel> nodeOf;
    for(auto const &n : s.nodes) for(int d : n.second.orbit) { darts.push_back(d); nodeOf[d] = n.first; }
    if(kind == 1)
    {   // not a permutation
        int a = g.pick(darts), b = g.pick(darts);
        if(a == b) return;
        g.text << "sigma(" << a << ") = sigma(" << b << ") = " << sig[c + b] << "\n";
        sig[c + a] = sig[c + b];
        m->setSigmaMapping(sig, true);
        REQUIRE(!m->checkConsistency(), "two darts with the same successor are not noticed");
        g.classify("not a permutation"); g.nontrivial(true);
    }
    else if(kind == 2)
    {   // orbits of two nodes joined
        int a = g.pick(darts), b = g.pick(darts);
        if(nodeOf[a] == nodeOf[b]) return;
        g.text << "successors of darts " << a << " and " << b << " exchanged\n";
        std::swap(sig[c + a], sig[c + b]);
        m->setSigmaMapping(sig, true);
        REQUIRE(!m->checkConsistency(), "the orbit of a node contains darts of another node, but this is not noticed");
        g.classify("orbits joined"); g.nontrivial(true);
    }
    else if(kind == 3)
    {   // orbit of one node split
        int a = g.pick(darts), b = g.pick(darts);
        if(nodeOf[a] != nodeOf[b] || a == b) return;
        g.text << "successors of darts " << a << " and " << b << " exchanged\n";
        std::swap(sig[c + a], sig[c + b]);
        m->setSigmaMapping(sig, true);
        m->initializeMap(g.u(2));
        REQUIRE(!m->checkConsistency(), "the darts of one node form two orbits, but this is not noticed");
        g.classify("orbit split"); g.nontrivial(true);
    }
    else if(kind <= 5)
    {   // other rotation systems: planar or not
        std::map<int, int> ns;
        for(auto const &n : s.nodes)
        {
            std::vector<int> o = n.second.orbit;
            if(o.size() > 2 && g.u(2)) { if(g.u(2)) { size_t i = g.u(o.size() - 1); std::swap(o[i], o[i+1]); } else for(size_t i = 0; i + 1 < o.size(); ++i) std::swap(o[i], o[i + g.u(o.size() - i)]); }
            for(size_t i = 0; i < o.size(); ++i) ns[o[i]] = o[(i+1) % o.size()];
        }
        for(auto const &x : ns) sig[c + x.first] = x.second;
        m->setSigmaMapping(sig, true);
        for(auto const &x : ns) REQUIRE(m->dart(x.first).nextSigma().label() == x.second && m->dart(x.second).prevSigma().label() == x.first, "setSigmaMapping");
        REQUIRE(m->checkConsistency(), "a graph with other orders around its nodes is called inconsistent: " << quiet.o.str());
        // Euler characteristic over the orbits of phi (next dart: predecessor of the opposite one)
        std::map<int, int> inv; for(auto const &x : ns) inv[x.second] = x.first;
        std::set<int> seen; int contours = 0;
        for(auto const &x : ns) if(!seen.count(x.first)) { ++contours; for(int d = x.first; seen.insert(d).second; d = inv[-d]) ; }
        std::map<CellLabel, CellLabel> comp; std::function<CellLabel(CellLabel)> root = [&](CellLabel n) { while(comp[n] != n) n = comp[n]; return n; };
        int nodes = 0, comps = 0;
        for(auto const &n : s.nodes) if(n.second.orbit.size()) { comp[n.first] = n.first; ++nodes; ++comps; }
        for(auto const &e : s.edges) { CellLabel a = root(e.second.s), b = root(e.second.e); if(a != b) { comp[a] = b; --comps; } }
        int genus2 = 2*comps - (nodes - (int)s.edges.size() + contours);
        m->initializeMap(g.u(2));
        if(genus2 > 0)
        {
            REQUIRE(!m->checkConsistency(), "the orders around the nodes are not those of a planar map (genus " << genus2 / 2 << "), but this is not noticed");
            g.classify("not planar"); g.nontrivial(true);
        }
        else if(ns == [&]{ std::map<int,int> o; for(auto const &n : s.nodes) for(size_t i = 0; i < n.second.orbit.size(); ++i) o[n.second.orbit[i]] = n.second.orbit[(i+1) % n.second.orbit.size()]; return o; }())
            REQUIRE(m->checkConsistency(), "a valid map is called inconsistent: " << quiet.o.str());
    }
    else
    {   // geometry that contradicts the nodes or the derived quantities
        bool init = g.u(2); if(init) m->initializeMap(g.u(2));
        REQUIRE(m->checkConsistency(), "a valid map is called inconsistent: " << quiet.o.str());
        auto it = s.edges.begin(); std::advance(it, g.u(s.edges.size()));
        GeoMap::Edge &e(*m->edge(it->first));
        unsigned n = e.size();
        if(kind == 6)
        {
            unsigned i = g.u(2) ? 0 : n - 1;
            Vector2 d(g.i(-2, 2) / 4.0, g.i(-2, 2) / 4.0); if(d[0] == 0 && d[1] == 0) return;
            g.text << "end " << i << " of edge " << it->first << " moved by " << d << "\n";
            bool viaPoly = g.u(2);
            if(viaPoly) e.setPoint(i, e[i] + d); else e[i] += d;
            REQUIRE(!m->checkConsistency(), "end point " << i << " of edge " << it->first << " does not lie at its node, but this is not noticed");
            g.classify("end moved"); g.nontrivial(true);
        }
        else if(n > 2)
        {
            unsigned i = 1 + g.u(n - 2);
            double l0 = e.length(), a0 = e.partialArea();
            Vector2 d(g.i(-2, 2) / 4.0, g.i(-2, 2) / 4.0);
            e[i] += d;   // the plain array access does not update derived quantities
            Vector2Polygon q(e.begin(), e.end());
            bool off = std::fabs(q.length() - l0) > 0.01 || std::fabs(q.partialArea() - a0) > 0.01;
            bool same = std::fabs(q.length() - l0) < 1e-6 && std::fabs(q.partialArea() - a0) < 1e-6;
            g.text << "point " << i << " of edge " << it->first << " overwritten (moved by " << d << ")\n";
            if(off) { REQUIRE(!m->checkConsistency(), "edge " << it->first << " has length " << l0 << ", area " << a0 << " instead of " << q.length() << ", " << q.partialArea() << ", but this is not noticed"); g.classify("stale length or area"); g.nontrivial(true); }
            else if(same) REQUIRE(m->checkConsistency(), "a valid map is called inconsistent: " << quiet.o.str());
        }
        else
        {
            g.text << "edge " << it->first << " cut to one point\n";
            e.erase(e.begin() + (n - 1));
            if(e.size() == 1) { REQUIRE(!m->checkConsistency(), "edge " << it->first << " has one point only, but this is not noticed"); g.classify("short edge"); g.nontrivial(true); }
        }
    }
}
int main(int argc, char **argv) { return pbt::main_(argc, argv); }
