// random Euler operation histories with a per-operation specification
#ifndef GM_OPS_HXX
#define GM_OPS_HXX
#include "gm.hxx"

namespace gm {

struct Aspects { bool topo, geom, labels, sem; Aspects() : topo(false), geom(false), labels(false), sem(false) {} };

inline std::vector<CellLabel> bridges(Snap const &s) { std::vector<CellLabel> r; for(auto &e : s.edges) if(e.second.l == e.second.r) r.push_back(e.first); return r; }
inline std::vector<CellLabel> nonBridges(Snap const &s) { std::vector<CellLabel> r; for(auto &e : s.edges) if(e.second.l != e.second.r) r.push_back(e.first); return r; }
inline std::vector<CellLabel> deg2(Snap const &s) { std::vector<CellLabel> r; for(auto &n : s.nodes) if(n.second.orbit.size() == 2 && std::abs(n.second.orbit[0]) != std::abs(n.second.orbit[1])) r.push_back(n.first); return r; }
inline std::vector<CellLabel> isolatedNodes(Snap const &s) { std::vector<CellLabel> r; for(auto &n : s.nodes) if(n.second.isolated) r.push_back(n.first); return r; }

inline bool sameEdge(EEdge const &a, EEdge const &b) { return a.s == b.s && a.e == b.e && a.l == b.l && a.r == b.r && a.pts == b.pts && a.flags == b.flags; }

// the sigma orbit as a cyclic sequence
inline std::vector<int> canon(std::vector<int> o)
{ if(o.empty()) return o; std::rotate(o.begin(), std::min_element(o.begin(), o.end()), o.end()); return o; }

// everything must be as before (anchors of contours may denote another dart of the same contour)
inline void requireUnchanged(Snap const &a, Snap const &b, std::string const &what)
{
    REQUIRE(a.maxN == b.maxN && a.maxE == b.maxE && a.maxF == b.maxF, what << ": label ranges changed");
    REQUIRE(a.nodes.size() == b.nodes.size(), what << ": number of nodes changed");
    for(auto const &n : a.nodes)
    {
        REQUIRE(b.nodes.count(n.first), what << ": node " << n.first << " vanished");
        ENode const &q = b.nodes.at(n.first);
        REQUIRE(q.pos == n.second.pos && canon(q.orbit) == canon(n.second.orbit), what << ": node " << n.first << " changed");
    }
    REQUIRE(a.edges.size() == b.edges.size(), what << ": number of edges changed");
    for(auto const &e : a.edges)
        REQUIRE(b.edges.count(e.first) && sameEdge(b.edges.at(e.first), e.second), what << ": edge " << e.first << " changed");
    REQUIRE(a.faces.size() == b.faces.size(), what << ": number of faces changed");
    for(auto const &f : a.faces)
    {
        REQUIRE(b.faces.count(f.first), what << ": face " << f.first << " vanished");
        EFace const &q = b.faces.at(f.first);
        REQUIRE(q.flags == f.second.flags && q.pixelArea == f.second.pixelArea && q.anchors.size() == f.second.anchors.size(), what << ": face " << f.first << " changed");
    }
    REQUIRE(a.li == b.li, what << ": label image changed");
}

// all edges except those in `except` unchanged; face labels may be renamed from->to
inline void requireEdges(Snap const &a, Snap const &b, std::set<CellLabel> const &gone, std::set<CellLabel> const &changed,
                         CellLabel from, CellLabel to, std::string const &what)
{
    for(auto const &e : a.edges)
    {
        if(gone.count(e.first)) { REQUIRE(!b.edges.count(e.first), what << ": edge " << e.first << " still exists"); continue; }
        REQUIRE(b.edges.count(e.first), what << ": edge " << e.first << " vanished");
        if(changed.count(e.first)) continue;
        EEdge w = e.second; if(w.l == from) w.l = to; if(w.r == from) w.r = to;
        REQUIRE(sameEdge(b.edges.at(e.first), w), what << ": uninvolved edge " << e.first << " changed");
    }
}
inline void requireNodes(Snap const &a, Snap const &b, std::set<CellLabel> const &gone, std::string const &what)
{
    for(auto const &n : a.nodes)
    {
        if(gone.count(n.first)) { REQUIRE(!b.nodes.count(n.first), what << ": node " << n.first << " still exists"); continue; }
        REQUIRE(b.nodes.count(n.first), what << ": node " << n.first << " vanished");
        REQUIRE(b.nodes.at(n.first).pos == n.second.pos, what << ": node " << n.first << " moved");
    }
}
inline void requireFaces(Snap const &a, Snap const &b, std::set<CellLabel> const &gone, std::string const &what)
{
    for(auto const &f : a.faces)
    {
        if(gone.count(f.first)) { REQUIRE(!b.faces.count(f.first), what << ": face " << f.first << " still exists"); continue; }
        REQUIRE(b.faces.count(f.first), what << ": face " << f.first << " vanished");
        REQUIRE(b.faces.at(f.first).flags == f.second.flags, what << ": flags of face " << f.first << " changed");
    }
    REQUIRE(b.faces.size() == a.faces.size() - gone.size(), what << ": unexpected new face");
}
inline bool sameLabels(std::vector<int> const &a, std::vector<int> const &b, CellLabel from, CellLabel to, std::string &msg)
{   // every pixel that had a face label keeps it (renamed); only edge pixels may change
    if(a.size() != b.size()) { msg = "label image size changed"; return false; }
    for(size_t i = 0; i < a.size(); ++i)
        if(a[i] >= 0 && (CellLabel)b[i] != ((CellLabel)a[i] == from ? to : (CellLabel)a[i])) { std::ostringstream o; o << "pixel #" << i << " changed from " << a[i] << " to " << b[i]; msg = o.str(); return false; }
    return true;
}

inline std::set<CellLabel> isolatedBy(Snap const &a, CellLabel edge)
{   // nodes whose only darts belong to `edge`
    std::set<CellLabel> r;
    EEdge const &e = a.edges.at(edge);
    for(CellLabel n : {e.s, e.e})
    {
        bool only = true;
        for(int d : a.nodes.at(n).orbit) only &= (CellLabel)std::abs(d) == edge;
        if(only) r.insert(n);
    }
    return r;
}

struct History
{
    pbt::Ctx &g; MapPtr m; Aspects as;
    int nOps, merges, bridgesRemoved, splits, edgeMerges, holesSeen;
    bool allowSplit, allowToggle, allowIllegal, flagEdges, allowMove, allowRename;

    History(pbt::Ctx &g_, MapPtr m_, Aspects a) : g(g_), m(m_), as(a), nOps(0), merges(0), bridgesRemoved(0), splits(0), edgeMerges(0), holesSeen(0),
        allowSplit(true), allowToggle(false), allowIllegal(true), flagEdges(true), allowMove(false), allowRename(true) {}

    void warm()   // make some caches valid
    {
        int n = g.u(4);
        for(int k = 0; k < n; ++k)
        {
            Snap s = snap(*m);
            int what = g.u(7);
            if(what < 4 && s.edges.size())
            {
                auto it = s.edges.begin(); std::advance(it, g.u(s.edges.size()));
                GeoMap::EdgePtr e = m->edge(it->first);
                if(what == 0) e->length();
                else if(what == 1) e->partialArea();
                else if(what == 2) e->boundingBox();
                else e->scanLines();
            }
            else if(what >= 4 && s.faces.size() > 1)
            {
                auto it = s.faces.begin(); std::advance(it, g.u(s.faces.size()));
                if(what == 4) m->face(it->first)->area();
                else if(it->first) { if(what == 5) m->face(it->first)->boundingBox(); else { m->face(it->first)->area(); m->face(it->first)->boundingBox(); } }
            }
        }
    }

    void checkAll()
    {
        if(as.topo) checkTopology(*m);
        if(as.geom) checkGeometry(*m);
        if(as.labels && m->hasLabelImage()) checkLabelImage(*m);
    }

    void doMergeFaces(CellLabel l, bool neg, bool viaRemoveEdge, Snap const &a)
    {
        EEdge e = a.edges.at(l);
        GeoMap::Dart d = m->dart(neg ? -(int)l : (int)l);
        GeoMap::FacePtr r = viaRemoveEdge ? m->removeEdge(d) : m->mergeFaces(d);
        ++merges;
        if(!as.sem) return;
        REQUIRE(r, "mergeFaces returned no face");
        Snap b = snap(*m);
        CellLabel su = r->label();
        REQUIRE(su == e.l || su == e.r, "mergeFaces returned face " << su << " which is neither " << e.l << " nor " << e.r);
        CellLabel go = su == e.l ? e.r : e.l;
        REQUIRE(go != 0, "mergeFaces removed the infinite face");
        requireFaces(a, b, std::set<CellLabel>{go}, "mergeFaces");
        requireEdges(a, b, std::set<CellLabel>{l}, std::set<CellLabel>(), go, su, "mergeFaces");
        requireNodes(a, b, isolatedBy(a, l), "mergeFaces");
        REQUIRE(b.nodes.size() + isolatedBy(a, l).size() == a.nodes.size() && b.edges.size() + 1 == a.edges.size(), "mergeFaces: cell counts");
        std::string msg; REQUIRE(sameLabels(a.li, b.li, go, su, msg), "mergeFaces: " << msg);
        if(m->hasLabelImage()) REQUIRE(m->faceLabelLUT()[go] == su, "faceLabelLUT does not map merged face " << go << " to " << su);
    }
    void doRemoveBridge(CellLabel l, bool neg, bool viaRemoveEdge, Snap const &a)
    {
        EEdge e = a.edges.at(l);
        GeoMap::Dart d = m->dart(neg ? -(int)l : (int)l);
        GeoMap::FacePtr r = viaRemoveEdge ? m->removeEdge(d) : m->removeBridge(d);
        ++bridgesRemoved;
        if(!as.sem) return;
        REQUIRE(r, "removeBridge returned no face");
        Snap b = snap(*m);
        REQUIRE(r->label() == e.l, "removeBridge returned face " << r->label() << " instead of " << e.l);
        requireFaces(a, b, std::set<CellLabel>(), "removeBridge");
        requireEdges(a, b, std::set<CellLabel>{l}, std::set<CellLabel>(), UNINITIALIZED_CELL_LABEL, UNINITIALIZED_CELL_LABEL, "removeBridge");
        requireNodes(a, b, isolatedBy(a, l), "removeBridge");
        REQUIRE(b.nodes.size() + isolatedBy(a, l).size() == a.nodes.size() && b.edges.size() + 1 == a.edges.size(), "removeBridge: cell counts");
        std::string msg; REQUIRE(sameLabels(a.li, b.li, UNINITIALIZED_CELL_LABEL, UNINITIALIZED_CELL_LABEL, msg), "removeBridge: " << msg);
    }
    void doMergeEdges(CellLabel n, int which, Snap const &a)
    {
        std::vector<int> o = a.nodes.at(n).orbit;
        int d1 = o[which], d2 = o[1-which];
        CellLabel e1 = std::abs(d1), e2 = std::abs(d2);
        GeoMap::EdgePtr r = m->mergeEdges(m->dart(d1));
        ++edgeMerges;
        if(!as.sem) return;
        REQUIRE(r, "mergeEdges returned no edge");
        Snap b = snap(*m);
        CellLabel su = r->label();
        REQUIRE(su == e1 || su == e2, "mergeEdges returned edge " << su);
        CellLabel go = su == e1 ? e2 : e1;
        int ds = su == e1 ? d1 : d2, dg = su == e1 ? d2 : d1;   // both leave node n
        requireFaces(a, b, std::set<CellLabel>(), "mergeEdges");
        requireNodes(a, b, std::set<CellLabel>{n}, "mergeEdges");
        requireEdges(a, b, std::set<CellLabel>{go}, std::set<CellLabel>{su}, UNINITIALIZED_CELL_LABEL, UNINITIALIZED_CELL_LABEL, "mergeEdges");
        REQUIRE(b.nodes.size() + 1 == a.nodes.size() && b.edges.size() + 1 == a.edges.size(), "mergeEdges: cell counts");
        // expected polyline, in the survivor's old direction
        Pts ps = a.edges.at(su).pts, pg = a.edges.at(go).pts;
        if(dg < 0) std::reverse(pg.begin(), pg.end());          // now starts at n
        Pts want; EEdge w = a.edges.at(su);
        CellLabel other = dg > 0 ? a.edges.at(go).e : a.edges.at(go).s;
        if(ds > 0) { std::reverse(pg.begin(), pg.end()); want = pg; want.insert(want.end(), ps.begin()+1, ps.end()); w.s = other; }
        else { want = ps; want.insert(want.end(), pg.begin()+1, pg.end()); w.e = other; }
        EEdge const &got = b.edges.at(su);
        REQUIRE(got.pts == want, "mergeEdges: polyline is " << got.pts << " instead of " << want);
        REQUIRE(got.s == w.s && got.e == w.e, "mergeEdges: end nodes " << got.s << "->" << got.e << " instead of " << w.s << "->" << w.e);
        REQUIRE(got.l == w.l && got.r == w.r && got.flags == w.flags, "mergeEdges: faces or flags of the survivor changed");
        std::string msg; REQUIRE(sameLabels(a.li, b.li, UNINITIALIZED_CELL_LABEL, UNINITIALIZED_CELL_LABEL, msg), "mergeEdges: " << msg);
    }
    void doSplit(CellLabel l, unsigned seg, bool ins, P pt, Snap const &a)
    {
        EEdge e = a.edges.at(l);
        GeoMap::EdgePtr r = ins ? m->splitEdge(*m->edge(l), seg, toV(pt)) : m->splitEdge(*m->edge(l), seg);
        ++splits;
        if(!as.sem) return;
        REQUIRE(r, "splitEdge returned no edge");
        Snap b = snap(*m);
        REQUIRE(!a.edges.count(r->label()) && r->label() >= a.maxE, "splitEdge reused edge label " << r->label());
        CellLabel nn = r->startNodeLabel();
        REQUIRE(!a.nodes.count(nn) && nn >= a.maxN, "splitEdge reused node label " << nn);
        requireFaces(a, b, std::set<CellLabel>(), "splitEdge");
        requireNodes(a, b, std::set<CellLabel>(), "splitEdge");
        requireEdges(a, b, std::set<CellLabel>(), std::set<CellLabel>{l}, UNINITIALIZED_CELL_LABEL, UNINITIALIZED_CELL_LABEL, "splitEdge");
        REQUIRE(b.nodes.size() == a.nodes.size() + 1 && b.edges.size() == a.edges.size() + 1, "splitEdge: cell counts");
        Pts p = e.pts; unsigned k = seg;
        if(ins) { ++k; p.insert(p.begin() + k, pt); }
        Pts p1(p.begin(), p.begin() + k + 1), p2(p.begin() + k, p.end());
        EEdge const &g1 = b.edges.at(l), &g2 = b.edges.at(r->label());
        REQUIRE(g1.pts == p1 && g2.pts == p2, "splitEdge: polylines " << g1.pts << " | " << g2.pts << " instead of " << p1 << " | " << p2);
        REQUIRE(b.nodes.at(nn).pos == p[k], "splitEdge: new node at " << b.nodes.at(nn).pos << " instead of " << p[k]);
        REQUIRE(g1.s == e.s && g1.e == nn && g2.s == nn && g2.e == e.e, "splitEdge: end nodes wrong");
        REQUIRE(g1.l == e.l && g1.r == e.r && g2.l == e.l && g2.r == e.r, "splitEdge: faces wrong");
        REQUIRE(g1.flags == e.flags && g2.flags == e.flags, "splitEdge: flags wrong");
        std::string msg; REQUIRE(sameLabels(a.li, b.li, UNINITIALIZED_CELL_LABEL, UNINITIALIZED_CELL_LABEL, msg), "splitEdge: " << msg);
    }
    void expectRefused(std::function<void()> f, Snap const &a, std::string const &what)
    {
        bool thrown = false;
        try { f(); } catch(vigra::ContractViolation &) { thrown = true; }
        REQUIRE(thrown, what << " was not refused");
        requireUnchanged(a, snap(*m), what);
    }

    // returns false if nothing is left to do
    bool step()
    {
        Snap a = snap(*m);
        for(auto const &f : a.faces) if(f.first && f.second.anchors.size() > 1) holesSeen = 1;
        int op = g.u(12);
        ++nOps;
        if(op <= 2)
        {
            auto v = nonBridges(a); if(v.empty()) return !a.edges.empty();
            CellLabel l = g.pick(v); bool neg = g.u(2);
            g.text << "mergeFaces(" << (neg ? "-" : "") << l << ")\n";
            doMergeFaces(l, neg, op == 2, a);
        }
        else if(op <= 4)
        {
            auto v = bridges(a); if(v.empty()) return !a.edges.empty();
            CellLabel l = g.pick(v); bool neg = g.u(2);
            g.text << "removeBridge(" << (neg ? "-" : "") << l << ")\n";
            doRemoveBridge(l, neg, op == 4, a);
        }
        else if(op <= 6)
        {
            auto v = deg2(a); if(v.empty()) return !a.edges.empty();
            CellLabel n = g.pick(v); int w = g.u(2);
            g.text << "mergeEdges(" << a.nodes.at(n).orbit[w] << ")\n";
            doMergeEdges(n, w, a);
        }
        else if(op <= 8)
        {
            if(!allowSplit || a.edges.empty()) return !a.edges.empty();
            auto it = a.edges.begin(); std::advance(it, g.u(a.edges.size()));
            unsigned n = it->second.pts.size();
            bool ins = g.u(2) || n < 3;
            unsigned seg = ins ? g.u(n - 1) : 1 + g.u(n - 2);
            double t = g.pick(std::vector<double>{0.5, 0.25, 0.75});
            P p0 = it->second.pts[seg], p1 = it->second.pts[std::min(seg + 1, n - 1)];
            P pt(p0.x + t*(p1.x-p0.x), p0.y + t*(p1.y-p0.y));
            if(splits > 6) ins = ins && false;
            if(!ins && (seg < 1 || seg + 1 >= n)) return true;
            g.text << "splitEdge(" << it->first << "," << seg; if(ins) g.text << "," << pt; g.text << ")\n";
            doSplit(it->first, seg, ins, pt, a);
        }
        else if(op == 9)
        {
            auto v = isolatedNodes(a); if(v.empty()) return !a.edges.empty();
            CellLabel n = g.pick(v);
            g.text << "removeIsolatedNode(" << n << ")\n";
            bool ok = m->removeIsolatedNode(*m->node(n));
            if(as.sem)
            {
                REQUIRE(ok, "removeIsolatedNode returned false");
                Snap b = snap(*m);
                requireNodes(a, b, std::set<CellLabel>{n}, "removeIsolatedNode");
                Snap a2 = a; a2.nodes.erase(n);
                requireUnchanged(a2, b, "removeIsolatedNode");
            }
        }
        else if(op == 10 && allowIllegal && as.sem)
        {
            int k = g.u(4);
            auto br = bridges(a), nb = nonBridges(a);
            if(k == 0 && br.size()) { CellLabel l = g.pick(br); g.text << "illegal mergeFaces(" << l << ")\n"; expectRefused([&]{ m->mergeFaces(m->dart(l)); }, a, "mergeFaces on a bridge"); }
            else if(k == 1 && nb.size()) { CellLabel l = g.pick(nb); g.text << "illegal removeBridge(" << l << ")\n"; expectRefused([&]{ m->removeBridge(m->dart(l)); }, a, "removeBridge on a non-bridge"); }
            else if(k == 2)
            {
                std::vector<int> ds;
                for(auto &n : a.nodes) if(n.second.orbit.size() != 2 || std::abs(n.second.orbit[0]) == std::abs(n.second.orbit[1])) for(int d : n.second.orbit) ds.push_back(d);
                if(ds.size()) { int d = g.pick(ds); g.text << "illegal mergeEdges(" << d << ")\n"; expectRefused([&]{ m->mergeEdges(m->dart(d)); }, a, "mergeEdges at a node that is not of degree 2"); }
            }
            else
            {
                std::vector<CellLabel> gone; for(CellLabel l = 1; l < a.maxE; ++l) if(!a.edges.count(l)) gone.push_back(l);
                if(gone.size())
                {
                    CellLabel l = g.pick(gone); int q = g.u(4);
                    g.text << "operation on removed dart " << l << "\n";
                    expectRefused([&]{ if(q == 0) m->mergeFaces(m->dart(l)); else if(q == 1) m->removeBridge(m->dart(l)); else if(q == 2) m->mergeEdges(m->dart(l)); else m->dart(-(int)l).startNodeLabel(); }, a, "operation on a removed edge");
                }
            }
        }
        else if(op == 10 && allowMove && !m->hasLabelImage() && a.nodes.size())
        {
            auto it = a.nodes.begin(); std::advance(it, g.u(a.nodes.size()));
            P q(it->second.pos.x + g.i(-2,2)/16.0, it->second.pos.y + g.i(-2,2)/16.0);
            g.text << "setPosition(node " << it->first << "," << q << ")\n";
            m->node(it->first)->setPosition(toV(q));
            g.classify("node moved");
            Snap b = snap(*m);
            REQUIRE(b.nodes.at(it->first).pos == q, "setPosition: node " << it->first << " is at " << b.nodes.at(it->first).pos);
            for(auto const &e : a.edges)
            {
                Pts w = e.second.pts;
                if(e.second.s == it->first) w.front() = q;
                if(e.second.e == it->first) w.back() = q;
                REQUIRE(b.edges.at(e.first).pts == w, "setPosition: edge " << e.first << " is " << b.edges.at(e.first).pts << " instead of " << w);
            }
        }
        else if(op == 11 && allowRename && a.faces.size() && g.p(1,4))
        {   // rename all faces (the infinite face remains face 0)
            std::vector<CellLabel> pool, map(a.maxF, 0); CellLabel n = a.faces.size() + g.u(4);
            for(CellLabel l = 1; l < n; ++l) pool.push_back(l);
            for(size_t i = 0; i + 1 < pool.size(); ++i) std::swap(pool[i], pool[i + g.u(pool.size() - i)]);
            size_t k = 0; for(auto const &f : a.faces) if(f.first) map[f.first] = pool[k++];
            g.text << "changeFaceLabels:"; for(auto const &f : a.faces) g.text << " " << f.first << "->" << map[f.first]; g.text << " (of " << n << ")\n";
            m->changeFaceLabels(map, n);
            Snap w = a, b = snap(*m); w.maxF = n; w.faces.clear();
            for(auto const &f : a.faces) w.faces[map[f.first]] = f.second;
            for(auto &e : w.edges) { e.second.l = map[e.second.l]; e.second.r = map[e.second.r]; }
            for(auto &x : w.li) if(x >= 0) x = map[x];
            requireUnchanged(w, b, "changeFaceLabels");
            for(auto const &f : b.faces) REQUIRE(m->face(f.first)->label() == f.first, "changeFaceLabels: face " << f.first << " says it is " << m->face(f.first)->label());
            g.classify("faces renamed");
        }
        else if(op == 11)
        {
            if(allowToggle && g.u(2)) { g.text << "toggle label image\n"; m->setHasLabelImage(false); m->setHasLabelImage(true); }
            else if(flagEdges && a.faces.size() && g.u(2))
            {
                auto it = a.faces.begin(); std::advance(it, g.u(a.faces.size()));
                unsigned f = 1u << g.u(28); bool on = g.u(3) != 0;
                g.text << "face " << it->first << ": setFlag(" << f << "," << on << ")\n";
                m->face(it->first)->setFlag(f, on);
                Snap b = snap(*m), w = a; w.faces[it->first].flags = on ? it->second.flags | f : it->second.flags & ~f;
                requireUnchanged(w, b, "setFlag");
                REQUIRE(bool(m->face(it->first)->flag(f)) == on, "setFlag: flag is not " << on);
                g.classify("face flag changed");
            }
            else if(flagEdges && a.edges.size())
            {
                auto it = a.edges.begin(); std::advance(it, g.u(a.edges.size()));
                unsigned f = 0x100u << g.u(4);
                g.text << "setFlag(" << it->first << "," << f << ")\n";
                m->edge(it->first)->setFlag(f, g.u(2));
            }
        }
        return true;
    }
    void run(int maxOps)
    {
        int n = g.i(1, maxOps);
        for(int k = 0; k < n; ++k)
        {
            warm();
            if(!step()) break;
            checkAll();
        }
        g.classify("mergeFaces", merges > 0); g.classify("removeBridge", bridgesRemoved > 0);
        g.classify("mergeEdges", edgeMerges > 0); g.classify("splitEdge", splits > 0);
        g.classify("face with hole", holesSeen > 0);
    }
};

// a random initialized map of either family
inline MapPtr genMap(pbt::Ctx &g, bool labelImage, GenOpts o = GenOpts())
{
    MapPtr m;
    if(g.p(1,4))
    {
        LabelImg im = genLabelImg(g, 7);
        g.text << str(im);
        g.classify("crack-edge map");
        m = buildCrack(im, labelImage);
    }
    else
    {
        MapSpec sp = genGraphMap(g, o);
        g.text << sp.str();
        g.classify("polygonal map");
        m = buildGraph(sp);
        m->initializeMap(labelImage);
        g.classify("more than 50 edges", sp.edges.size() > 50);
    }
    g.text << (labelImage ? "with label image\n" : "no label image\n");
    return m;
}

} // namespace gm
#endif
