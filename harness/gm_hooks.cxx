// P05 hooks and vetoes, P06 copies, P10 compound operations, P11 EdgeProtection, P12 FaceColorStatistics
#include "gm_ops.hxx"
#include "facestatistics.hxx"
#include <vigra/multi_array.hxx>
using namespace gm;

/********************************************************************/
/*                              P05                                 */
/********************************************************************/
struct Call { std::string kind; int who; int a, b, c; P p; Snap s; bool ret; std::vector<std::pair<int,int> > px; int areaSeen; };

struct Recorder
{
    pbt::Ctx &g; GeoMap &m; std::vector<Call> log;
    std::vector<boost::signals2::connection> con; int nPre, nPost;
    int vetoNum; // probability of a false return, in 1/16
    Recorder(pbt::Ctx &g_, GeoMap &m_) : g(g_), m(m_), nPre(0), nPost(0), vetoNum(0) {}
    ~Recorder() { for(auto &c : con) c.disconnect(); }

    Call &add(char const *kind, int who, int a = 0, int b = 0, int c = 0)
    {
        Call k; k.kind = kind; k.who = who; k.a = a; k.b = b; k.c = c; k.ret = true; k.areaSeen = -1;
        k.s = snap(m);
        log.push_back(k); return log.back();
    }
    bool decide(Call &c) { c.ret = !g.p(vetoNum, 16); return c.ret; }
    void attach(int pre, int post)
    {
        nPre = pre; nPost = post;
        for(int i = 0; i < pre; ++i)
        {
            con.push_back(m.removeNodeHook.connect([this, i](GeoMap::Node &n) { return decide(add("node", i, n.label(), n.isIsolated())); }));
            con.push_back(m.preMergeEdgesHook.connect([this, i](GeoMap::Dart const &d) { return decide(add("preMergeEdges", i, d.label())); }));
            con.push_back(m.preRemoveBridgeHook.connect([this, i](GeoMap::Dart const &d) { return decide(add("preRemoveBridge", i, d.label())); }));
            con.push_back(m.preMergeFacesHook.connect([this, i](GeoMap::Dart const &d) { return decide(add("preMergeFaces", i, d.label())); }));
        }
        for(int i = 0; i < post; ++i)
        {
            con.push_back(m.preSplitEdgeHook.connect([this, i](GeoMap::Edge &e, unsigned s, Vector2 const &v, bool ins) { add("preSplit", i, e.label(), s, ins).p = toP(v); }));
            con.push_back(m.postMergeEdgesHook.connect([this, i](GeoMap::Edge &e) { add("postMergeEdges", i, e.label()); }));
            con.push_back(m.postSplitEdgeHook.connect([this, i](GeoMap::Edge &e, GeoMap::Edge &f) { add("postSplit", i, e.label(), f.label()); }));
            con.push_back(m.postRemoveBridgeHook.connect([this, i](GeoMap::Face &f) { add("postRemoveBridge", i, f.label()); }));
            con.push_back(m.postMergeFacesHook.connect([this, i](GeoMap::Face &f) { add("postMergeFaces", i, f.label()); }));
            con.push_back(m.associatePixelsHook.connect([this, i](GeoMap::Face const &f, PixelList const &px)
            {
                Call &c = add("associate", i, f.label());
                c.areaSeen = f.pixelArea();
                for(auto const &q : px) c.px.push_back(std::make_pair(q.x, q.y));
            }));
        }
    }
    size_t pos;
    // the pre-type callbacks `kind`: consumed in order up to the first veto; returns whether all agreed
    bool expectPre(std::string const &kind, Snap const *unchanged, std::function<void(Call const &)> f)
    {
        for(int i = 0; i < nPre; ++i)
        {
            REQUIRE(pos < log.size() && log[pos].kind == kind && log[pos].who == i,
                    "expected callback #" << i << " of " << kind << ", but " << (pos < log.size() ? log[pos].kind : std::string("nothing")) << " was called");
            f(log[pos]);
            if(unchanged) requireUnchanged(*unchanged, log[pos].s, kind + " callback saw a map that");
            if(!log[pos++].ret) return false;
        }
        return true;
    }
    void expectPost(std::string const &kind, std::function<void(Call const &)> f)
    {
        for(int i = 0; i < nPost; ++i)
        {
            REQUIRE(pos < log.size() && log[pos].kind == kind && log[pos].who == i,
                    "expected callback #" << i << " of " << kind << ", but " << (pos < log.size() ? log[pos].kind : std::string("nothing")) << " was called");
            f(log[pos++]);
        }
    }
    void expectEnd() { REQUIRE(pos == log.size(), "unexpected extra callback " << log[pos].kind << " #" << log[pos].who); }
};

static void sameStructure(Snap const &b, Snap const &c, std::string const &what)
{   // pixelArea may still lag behind at the time of the post callbacks
    Snap x = b, y = c;
    for(auto &f : x.faces) f.second.pixelArea = 0;
    for(auto &f : y.faces) f.second.pixelArea = 0;
    requireUnchanged(x, y, what + ": state seen by the callback vs. final state");
}

static void checkAssociate(Recorder &r, Snap const &a, Snap const &b, CellLabel face, GeoMap &m)
{
    std::vector<std::pair<int,int> > want;
    int W = m.imageSize().x;
    for(size_t i = 0; i < a.li.size(); ++i) if(a.li[i] < 0 && b.li[i] >= 0) want.push_back(std::make_pair(int(i) % W, int(i) / W));
    if(!want.empty())
    {
        r.g.classify("associatePixels callback");
        r.expectPost("associate", [&](Call const &c) {
            REQUIRE((CellLabel)c.a == face, "associatePixels called for face " << c.a << " instead of " << face);
            auto px = c.px; std::sort(px.begin(), px.end()); auto w = want; std::sort(w.begin(), w.end());
            REQUIRE(px == w, "associatePixels announced " << px.size() << " pixels, but " << w.size() << " pixels were newly associated (or different ones)");
            requireUnchanged(b, c.s, "state seen by associatePixels vs. final state");
            REQUIRE(c.areaSeen == (int)b.faces.at(face).pixelArea, "associatePixels saw pixelArea " << c.areaSeen);
        });
    }
}

PROP(P05, "at least one callback fired and either a veto or a complete operation was observed")
{
    bool li = g.u(2);
    GenOpts o; o.maxSteps = 8; o.big = g.p(1,8);
    MapPtr m = genMap(g, li, o);
    Recorder r(g, *m);
    r.attach(g.i(1, 3), g.i(1, 2));
    r.vetoNum = g.pick(std::vector<int>{0, 2, 6});
    g.text << r.nPre << " pre and " << r.nPost << " post callbacks, veto rate " << r.vetoNum << "/16\n";
    int n = g.i(1, 8), vetoes = 0, done = 0;
    for(int k = 0; k < n; ++k)
    {
        Snap a = snap(*m);
        if(a.edges.empty() && isolatedNodes(a).empty()) break;
        r.log.clear(); r.pos = 0;
        int op = g.u(11);
        if(op <= 2)
        {
            auto v = nonBridges(a); if(v.empty()) continue;
            CellLabel l = g.pick(v); bool neg = g.u(2);
            g.text << "mergeFaces(" << (neg ? "-" : "") << l << ")\n";
            EEdge e = a.edges.at(l);
            GeoMap::FacePtr res = op == 2 ? m->removeEdge(m->dart(neg ? -(int)l : (int)l)) : m->mergeFaces(m->dart(neg ? -(int)l : (int)l));
            Snap b = snap(*m);
            int pd = 0;
            bool ok = r.expectPre("preMergeFaces", &a, [&](Call const &c) { REQUIRE((CellLabel)std::abs(c.a) == l, "preMergeFaces callback got dart " << c.a << " for edge " << l); REQUIRE(!pd || pd == c.a, "preMergeFaces callbacks got different darts"); pd = c.a; });
            if(!ok)
            {
                ++vetoes; g.classify("mergeFaces vetoed");
                REQUIRE(!res, "vetoed mergeFaces returned a face"); requireUnchanged(a, b, "vetoed mergeFaces");
            }
            else
            {
                ++done;
                if(!pd) { REQUIRE(res, "mergeFaces returned no face"); pd = res->label() == e.l ? 1 : -1; }
                CellLabel su = pd > 0 ? e.l : e.r, go = pd > 0 ? e.r : e.l;
                REQUIRE(res && res->label() == su, "mergeFaces callback announced dart " << pd << " (face " << go << " merged into " << su << ") but " << (res ? (int)res->label() : -1) << " survived");
                std::set<CellLabel> nodesGone;
                for(CellLabel x : isolatedBy(a, l))
                    if(r.expectPre("node", 0, [&](Call const &c) { REQUIRE((CellLabel)c.a == x && c.b, "removeNode callback got node " << c.a << " (isolated: " << c.b << ") instead of " << x); })) nodesGone.insert(x);
                    else { g.classify("node removal vetoed"); ++vetoes; }
                requireFaces(a, b, std::set<CellLabel>{go}, "mergeFaces");
                requireEdges(a, b, std::set<CellLabel>{l}, std::set<CellLabel>(), go, su, "mergeFaces");
                requireNodes(a, b, nodesGone, "mergeFaces");
                r.expectPost("postMergeFaces", [&](Call const &c) { REQUIRE((CellLabel)c.a == su, "postMergeFaces callback got face " << c.a << " instead of " << su); sameStructure(b, c.s, "postMergeFaces"); });
                checkAssociate(r, a, b, su, *m);
            }
        }
        else if(op <= 4)
        {
            auto v = bridges(a); if(v.empty()) continue;
            CellLabel l = g.pick(v); int dl = g.u(2) ? -(int)l : (int)l;
            g.text << "removeBridge(" << dl << ")\n";
            EEdge e = a.edges.at(l);
            GeoMap::FacePtr res = op == 4 ? m->removeEdge(m->dart(dl)) : m->removeBridge(m->dart(dl));
            Snap b = snap(*m);
            bool ok = r.expectPre("preRemoveBridge", &a, [&](Call const &c) { REQUIRE(c.a == dl, "preRemoveBridge callback got dart " << c.a << " instead of " << dl); });
            if(!ok)
            {
                ++vetoes; g.classify("removeBridge vetoed");
                REQUIRE(!res, "vetoed removeBridge returned a face"); requireUnchanged(a, b, "vetoed removeBridge");
            }
            else
            {
                ++done;
                REQUIRE(res && res->label() == e.l, "removeBridge returned the wrong face");
                std::set<CellLabel> iso = isolatedBy(a, l), nodesGone;
                // order of the two end nodes is not specified
                if(!r.nPre) { nodesGone = iso; iso.clear(); }
                while(iso.size())
                {
                    CellLabel x = 0; bool first = true;
                    bool all = r.expectPre("node", 0, [&](Call const &c) {
                        if(first) { x = c.a; first = false; REQUIRE(iso.count(x), "removeNode callback for node " << x << " which did not lose its last edge"); }
                        REQUIRE((CellLabel)c.a == x && c.b, "removeNode callback got node " << c.a << " instead of " << x); });
                    iso.erase(x);
                    if(all) nodesGone.insert(x); else { g.classify("node removal vetoed"); ++vetoes; }
                }
                requireFaces(a, b, std::set<CellLabel>(), "removeBridge");
                requireEdges(a, b, std::set<CellLabel>{l}, std::set<CellLabel>(), UNINITIALIZED_CELL_LABEL, UNINITIALIZED_CELL_LABEL, "removeBridge");
                requireNodes(a, b, nodesGone, "removeBridge");
                r.expectPost("postRemoveBridge", [&](Call const &c) { REQUIRE((CellLabel)c.a == e.l, "postRemoveBridge callback got face " << c.a << " instead of " << e.l); sameStructure(b, c.s, "postRemoveBridge"); });
                checkAssociate(r, a, b, e.l, *m);
            }
        }
        else if(op <= 6)
        {
            auto v = deg2(a); if(v.empty()) continue;
            CellLabel nd = g.pick(v); int w = g.u(2);
            std::vector<int> orb = a.nodes.at(nd).orbit;
            g.text << "mergeEdges(" << orb[w] << ")\n";
            GeoMap::EdgePtr res = m->mergeEdges(m->dart(orb[w]));
            Snap b = snap(*m);
            int pd = 0;
            bool ok = r.expectPre("preMergeEdges", &a, [&](Call const &c) {
                REQUIRE(c.a == orb[0] || c.a == orb[1], "preMergeEdges callback got dart " << c.a << " which does not start at the merged node");
                REQUIRE(!pd || pd == c.a, "preMergeEdges callbacks got different darts"); pd = c.a; });
            if(ok) ok = r.expectPre("node", &a, [&](Call const &c) { REQUIRE((CellLabel)c.a == nd, "removeNode callback got node " << c.a << " instead of " << nd); });
            if(!ok)
            {
                ++vetoes; g.classify("mergeEdges vetoed");
                REQUIRE(!res, "vetoed mergeEdges returned an edge"); requireUnchanged(a, b, "vetoed mergeEdges");
            }
            else
            {
                ++done;
                if(!pd) { REQUIRE(res, "mergeEdges returned no edge"); pd = (int)res->label() == std::abs(orb[0]) ? orb[0] : orb[1]; }
                CellLabel su = std::abs(pd), go = std::abs(pd == orb[0] ? orb[1] : orb[0]);
                REQUIRE(res && res->label() == su, "mergeEdges announced survivor " << su << " but returned " << (res ? (int)res->label() : -1));
                requireFaces(a, b, std::set<CellLabel>(), "mergeEdges");
                requireNodes(a, b, std::set<CellLabel>{nd}, "mergeEdges");
                requireEdges(a, b, std::set<CellLabel>{go}, std::set<CellLabel>{su}, UNINITIALIZED_CELL_LABEL, UNINITIALIZED_CELL_LABEL, "mergeEdges");
                r.expectPost("postMergeEdges", [&](Call const &c) { REQUIRE((CellLabel)c.a == su, "postMergeEdges callback got edge " << c.a << " instead of " << su); requireUnchanged(b, c.s, "state seen by postMergeEdges vs. final state"); });
            }
        }
        else if(op <= 8)
        {
            if(a.edges.empty()) continue;
            auto it = a.edges.begin(); std::advance(it, g.u(a.edges.size()));
            unsigned np = it->second.pts.size();
            bool ins = g.u(2) || np < 3;
            unsigned seg = ins ? g.u(np - 1) : 1 + g.u(np - 2);
            P p0 = it->second.pts[seg], p1 = it->second.pts[seg + 1];
            P pt((p0.x + p1.x) / 2, (p0.y + p1.y) / 2);
            if(pt == p0 || pt == p1) continue;
            g.text << "splitEdge(" << it->first << "," << seg; if(ins) g.text << "," << pt; g.text << ")\n";
            GeoMap::EdgePtr res = ins ? m->splitEdge(*m->edge(it->first), seg, toV(pt)) : m->splitEdge(*m->edge(it->first), seg);
            Snap b = snap(*m);
            r.expectPost("preSplit", [&](Call const &c) {
                REQUIRE((CellLabel)c.a == it->first && (unsigned)c.b == seg && (bool)c.c == ins, "preSplitEdge callback got (" << c.a << "," << c.b << "," << c.c << ")");
                if(ins) REQUIRE(c.p == pt, "preSplitEdge callback got point " << c.p << " instead of " << pt);
                requireUnchanged(a, c.s, "preSplitEdge callback saw a map that"); });
            r.expectPost("postSplit", [&](Call const &c) {
                REQUIRE((CellLabel)c.a == it->first && (CellLabel)c.b == res->label(), "postSplitEdge callback got (" << c.a << "," << c.b << ")");
                requireUnchanged(b, c.s, "state seen by postSplitEdge vs. final state"); });
            ++done;
        }
        else if(op == 9)
        {
            auto v = isolatedNodes(a); if(v.empty()) continue;
            CellLabel nd = g.pick(v);
            g.text << "removeIsolatedNode(" << nd << ")\n";
            bool res = m->removeIsolatedNode(*m->node(nd));
            Snap b = snap(*m);
            bool ok = r.expectPre("node", &a, [&](Call const &c) { REQUIRE((CellLabel)c.a == nd, "removeNode callback got node " << c.a); });
            REQUIRE(res == ok, "removeIsolatedNode returned " << res);
            if(!ok) { ++vetoes; g.classify("removeIsolatedNode vetoed"); requireUnchanged(a, b, "vetoed removeIsolatedNode"); }
            else { ++done; Snap a2 = a; a2.nodes.erase(nd); requireUnchanged(a2, b, "removeIsolatedNode"); }
        }
        else
        {   // refused calls must not reach any callback
            auto br = bridges(a), nb = nonBridges(a);
            int q = g.u(2); bool thrown = false;
            if(q ? br.empty() : nb.empty()) continue;
            CellLabel l = g.pick(q ? br : nb);
            g.text << "illegal " << (q ? "mergeFaces" : "removeBridge") << "(" << l << ")\n";
            try { if(q) m->mergeFaces(m->dart(l)); else m->removeBridge(m->dart(l)); } catch(vigra::ContractViolation &) { thrown = true; }
            REQUIRE(thrown, "illegal operation was not refused");
            requireUnchanged(a, snap(*m), "illegal operation");
        }
        r.expectEnd();
        checkTopology(*m);
        if(m->hasLabelImage()) checkLabelImage(*m);
        if(r.con.size() && g.p(1,12))
        {   // disconnect everything: no further calls
            g.text << "disconnect all callbacks\n"; g.classify("disconnected");
            for(auto &c : r.con) c.disconnect();
            r.con.clear(); r.nPre = r.nPost = 0;
        }
    }
    g.classify("some veto", vetoes > 0);
    g.nontrivial(vetoes + done > 0);
}

/********************************************************************/
/*                              P06                                 */
/********************************************************************/
static void sameLUT(GeoMap &a, GeoMap &b)
{
    if(!a.hasLabelImage()) return;
    for(CellLabel l = 0; l < a.maxFaceLabel(); ++l)
        REQUIRE(a.faceLabelLUT()[l] == b.faceLabelLUT()[l], "copy's faceLabelLUT differs at " << l);
}
static void requireEqual(GeoMap &a, GeoMap &b, std::string const &what)
{
    Snap x = snap(a), y = snap(b);
    requireUnchanged(x, y, what);
    for(auto const &f : x.faces) REQUIRE(f.second.anchors == y.faces.at(f.first).anchors, what << ": contour anchors of face " << f.first << " differ");
    for(auto const &nd : x.nodes) REQUIRE(nd.second.orbit == y.nodes.at(nd.first).orbit, what << ": anchor of node " << nd.first << " differs");
    REQUIRE(a.nodeCount() == b.nodeCount() && a.edgeCount() == b.edgeCount() && a.faceCount() == b.faceCount(), what << ": cell counts differ");
    REQUIRE(a.imageSize() == b.imageSize() && a.hasLabelImage() == b.hasLabelImage() && a.mapInitialized() == b.mapInitialized() && a.edgesSorted() == b.edgesSorted(), what << ": size or state differs");
    sameLUT(a, b);
    for(auto const &nd : x.nodes)
    {
        P q(nd.second.pos.x + 0.0625, nd.second.pos.y);
        GeoMap::NodePtr n1 = a.nearestNode(toV(q)), n2 = b.nearestNode(toV(q));
        REQUIRE(n1 && n2, what << ": nearestNode found nothing near " << q);
        REQUIRE(toP(n1->position()) == toP(n2->position()), what << ": nearestNode differs near " << q);
    }
}

PROP(P06, "the copied map has at least one edge and at least two operations followed")
{
    bool li = g.u(2);
    GenOpts o; o.maxSteps = 9;
    MapPtr m;
    bool raw = g.p(1,5);
    if(raw)
    {   // graph stage: not yet initialized
        MapSpec sp = genGraphMap(g, o); g.text << sp.str();
        m = buildGraph(sp);
        int st = g.u(2); if(st) m->sortEdgesDirectly();
        g.text << (st ? "sorted graph\n" : "unsorted graph\n"); g.classify("copied before initialization");
    }
    else m = genMap(g, li, o);
    int fired = 0;
    boost::signals2::connection con = m->preMergeFacesHook.connect([&](GeoMap::Dart const &) { ++fired; return true; });
    Aspects none;
    History h(g, m, none);
    if(!raw) h.run(8); 
    bool nt = snap(*m).edges.size() > 0;
    g.text << "-- copy\n";
    MapPtr c(new GeoMap(*m));
    requireEqual(*m, *c, "copy");
    if(raw)
    {
        bool l2 = g.u(2);
        g.text << "initialize both\n";
        if(!m->edgesSorted()) { m->sortEdgesDirectly(); Snap before = snap(*c); c->sortEdgesDirectly(); }
        m->initializeMap(l2);
        REQUIRE(!c->mapInitialized() && c->faceCount() == 0, "initializing the original initialized the copy");
        c->initializeMap(l2);
        requireEqual(*m, *c, "copy after initializing both");
    }
    int lock = g.i(0, 4);
    for(int k = 0; k < lock; ++k)
    {   // the same operation on both must have the same effect
        Snap a = snap(*m);
        if(a.edges.empty()) break;
        auto it = a.edges.begin(); std::advance(it, g.u(a.edges.size()));
        int d = g.u(2) ? (int)it->first : -(int)it->first;
        g.text << "removeEdge(" << d << ") on both\n";
        MapPtr first = m, second = c; if(g.u(2)) std::swap(first, second);
        GeoMap::FacePtr f1 = first->removeEdge(first->dart(d));
        requireUnchanged(a, snap(*second), "map whose copy was modified");
        GeoMap::FacePtr f2 = second->removeEdge(second->dart(d));
        REQUIRE(f1 && f2 && f1->label() == f2->label(), "same operation on original and copy has different results");
        requireEqual(*m, *c, "copy after the same operation");
    }
    con.disconnect(); fired = 0;
    con = m->preMergeFacesHook.connect([&](GeoMap::Dart const &) { ++fired; return true; });
    // now let them diverge
    bool which = g.u(2);
    MapPtr act = which ? c : m, keep = which ? m : c;
    Snap k0 = snap(*keep);
    Aspects as; as.topo = true; as.geom = g.u(2); as.labels = true; as.sem = true;
    g.text << "-- modify the " << (which ? "copy" : "original") << "\n";
    History h2(g, act, as); h2.run(6);
    REQUIRE(!which || !fired, "operations on the copy called the original's callbacks");
    requireUnchanged(k0, snap(*keep), "map whose " + std::string(which ? "copy" : "original") + " was modified");
    con.disconnect();
    if(g.u(2)) { act.reset(); h2.m.reset(); h.m.reset(); if(which) c.reset(); else m.reset(); g.text << "destroy it\n"; requireUnchanged(k0, snap(*keep), "map whose sibling was destroyed"); g.classify("sibling destroyed"); }
    checkTopology(*keep);
    checkGeometry(*keep);
    if(keep->hasLabelImage()) checkLabelImage(*keep);
    History h3(g, keep, as); h3.run(4);
    g.nontrivial(nt && h2.nOps + h3.nOps >= 2);
}

/********************************************************************/
/*                              P10                                 */
/********************************************************************/
typedef std::pair<P, P> Seg;
static std::multiset<Seg> segs(Snap const &s, std::set<CellLabel> const *only = 0, bool invert = false)
{
    std::multiset<Seg> r;
    for(auto const &e : s.edges)
        if(!only || (only->count(e.first) > 0) != invert)
            for(size_t i = 1; i < e.second.pts.size(); ++i)
            { P a = e.second.pts[i-1], b = e.second.pts[i]; r.insert(b < a ? Seg(b, a) : Seg(a, b)); }
    return r;
}
static bool nonLoopDeg2(Snap const &s) { return !deg2(s).empty(); }
static std::string lst(std::vector<CellLabel> const &v) { std::ostringstream o; for(auto x : v) o << x << " "; return o.str(); }
static void checkAllAspects(GeoMap &m)
{ checkTopology(m); checkGeometry(m); if(m.hasLabelImage()) checkLabelImage(m); }
static void checkFlagsLeft(Snap const &a, Snap const &b, std::string const &what)
{
    for(auto const &e : b.edges) if(a.edges.count(e.first))
        REQUIRE(e.second.flags == a.edges.at(e.first).flags, what << ": flags of edge " << e.first << " changed from " << a.edges.at(e.first).flags << " to " << e.second.flags);
}

PROP(P10, "at least one edge or node was removed")
{
    bool li = g.u(2);
    MapPtr m = genMap(g, li);
    Aspects none; History h(g, m, none); h.flagEdges = false;
    if(g.u(2)) { h.run(5); g.text << "--\n"; }
    int rounds = g.i(1, 3), removed = 0;
    for(int k = 0; k < rounds; ++k)
    {
        h.warm();
        Snap a = snap(*m);
        int op = g.u(7);
        std::set<CellLabel> vetoed;
        boost::signals2::connection c1, c2;
        bool veto = (op <= 3) && g.p(1,4) && a.edges.size();
        if(veto)
        {   // some edges may not be removed
            for(auto const &e : a.edges) if(g.p(1,3)) vetoed.insert(e.first);
            auto f = [&](GeoMap::Dart const &d) { return !vetoed.count(d.edgeLabel()); };
            c1 = m->preMergeFacesHook.connect(f); c2 = m->preRemoveBridgeHook.connect(f);
            g.text << "vetoing edges " << lst(std::vector<CellLabel>(vetoed.begin(), vetoed.end())) << "\n";
            g.classify("with vetoes");
        }
        if(op <= 2)
        {
            std::vector<CellLabel> lab;
            int mode = g.u(3);
            for(auto const &e : a.edges) if(mode == 0 ? g.u(2) : mode == 1 ? g.p(1,6) : g.p(7,8)) lab.push_back(e.first);
            for(size_t i = 0; i + 1 < lab.size(); ++i) if(g.u(3) == 0) std::swap(lab[i], lab[i + g.u(lab.size() - i)]);
            g.text << "removeEdges(" << lst(lab) << ")\n";
            std::set<CellLabel> gone; for(auto l : lab) if(!vetoed.count(l)) gone.insert(l);
            unsigned res = removeEdges(*m, lab.begin(), lab.end());
            Snap b = snap(*m);
            std::multiset<Seg> want = segs(a, &gone, true), got = segs(b);
            REQUIRE(want == got, "removeEdges: remaining geometry is not the original minus the listed edges (" << got.size() << " segments instead of " << want.size() << ")");
            REQUIRE(isolatedNodes(b).empty(), "removeEdges left an isolated node");
            REQUIRE(!nonLoopDeg2(b), "removeEdges left a degree-2 node");
            unsigned exp = gone.size() + isolatedNodes(a).size() + (a.edges.size() - gone.size() - b.edges.size());
            REQUIRE(res == exp, "removeEdges reported " << res << " operations instead of " << exp);
            checkFlagsLeft(a, b, "removeEdges");
            g.classify("removeEdges"); removed += gone.size();
            g.classify("edge list contains bridges", [&]{ for(auto l : lab) if(a.edges.at(l).l == a.edges.at(l).r) return true; return false; }());
        }
        else if(op == 3)
        {
            g.text << "removeBridges\n";
            std::set<CellLabel> gone; for(auto l : bridges(a)) if(!vetoed.count(l)) gone.insert(l);
            unsigned res = removeBridges(*m);
            Snap b = snap(*m);
            requireEdges(a, b, gone, std::set<CellLabel>(), UNINITIALIZED_CELL_LABEL, UNINITIALIZED_CELL_LABEL, "removeBridges");
            requireFaces(a, b, std::set<CellLabel>(), "removeBridges");
            REQUIRE(b.edges.size() == a.edges.size() - gone.size(), "removeBridges: edge count");
            REQUIRE(res == gone.size(), "removeBridges reported " << res << " instead of " << gone.size());
            std::set<CellLabel> ng;
            for(auto const &n : a.nodes) { if(n.second.isolated) continue; bool all = true; for(int d : n.second.orbit) all &= gone.count(std::abs(d)) > 0; if(all) ng.insert(n.first); }
            requireNodes(a, b, ng, "removeBridges");
            g.classify("removeBridges"); removed += gone.size();
        }
        else if(op == 4)
        {
            g.text << "mergeDegree2Nodes\n";
            unsigned res = mergeDegree2Nodes(*m);
            Snap b = snap(*m);
            REQUIRE(segs(a) == segs(b), "mergeDegree2Nodes changed the geometry");
            REQUIRE(!nonLoopDeg2(b), "mergeDegree2Nodes left a degree-2 node");
            REQUIRE(a.nodes.size() - b.nodes.size() == res && a.edges.size() - b.edges.size() == res, "mergeDegree2Nodes reported " << res);
            requireFaces(a, b, std::set<CellLabel>(), "mergeDegree2Nodes");
            for(auto const &n : a.nodes) if(n.second.orbit.size() != 2) REQUIRE(b.nodes.count(n.first), "mergeDegree2Nodes removed node " << n.first << " of degree " << n.second.orbit.size());
            g.classify("mergeDegree2Nodes", res > 0); removed += res;
        }
        else if(op == 5)
        {
            g.text << "removeIsolatedNodes\n";
            unsigned res = removeIsolatedNodes(*m);
            Snap b = snap(*m), w = a;
            for(auto l : isolatedNodes(a)) w.nodes.erase(l);
            requireUnchanged(w, b, "removeIsolatedNodes");
            REQUIRE(res == isolatedNodes(a).size(), "removeIsolatedNodes reported " << res);
            g.classify("removeIsolatedNodes", res > 0); removed += res;
        }
        else
        {
            auto v = nonBridges(a); if(v.empty()) continue;
            CellLabel l = g.pick(v); int d = g.u(2) ? (int)l : -(int)l; bool md2 = g.u(2);
            CellLabel A = a.edges.at(l).l, B = a.edges.at(l).r;
            std::set<CellLabel> common;
            for(auto const &e : a.edges) if((e.second.l == A && e.second.r == B) || (e.second.l == B && e.second.r == A)) common.insert(e.first);
            CellLabel prot = 0;
            if(g.p(1,4)) { auto it = a.edges.begin(); if(g.u(2)) { prot = *std::next(common.begin(), g.u(common.size())); } else { std::advance(it, g.u(a.edges.size())); prot = it->first; }
                m->edge(prot)->setFlag(1u << g.u(8)); a = snap(*m); g.text << "protect " << prot << "\n"; }
            g.text << "mergeFacesCompletely(" << d << "," << md2 << ")\n";
            GeoMap::Dart dart = m->dart(d);
            GeoMap::FacePtr res = mergeFacesCompletely(dart, md2);
            Snap b = snap(*m);
            bool refused = false; for(auto c : common) refused |= (a.edges.at(c).flags & 0xff) != 0;
            if(refused)
            {
                REQUIRE(!res, "mergeFacesCompletely returned a face although a common edge is protected");
                requireUnchanged(a, b, "refused mergeFacesCompletely"); g.classify("mergeFacesCompletely refused");
            }
            else
            {
                REQUIRE(res && (res->label() == A || res->label() == B), "mergeFacesCompletely returned no or the wrong face");
                CellLabel su = res->label(), go = su == A ? B : A;
                requireFaces(a, b, std::set<CellLabel>{go}, "mergeFacesCompletely");
                REQUIRE(segs(a, &common, true) == segs(b), "mergeFacesCompletely: remaining geometry is not the original minus the common edges");
                // the end nodes of the removed edges
                std::set<CellLabel> aff; for(auto c : common) { aff.insert(a.edges.at(c).s); aff.insert(a.edges.at(c).e); }
                unsigned expNodesGone = 0;
                for(auto const &n : a.nodes)
                {
                    int left = 0; std::vector<int> rest; for(int x : n.second.orbit) if(!common.count(std::abs(x))) { ++left; rest.push_back(x); }
                    bool gone = false;
                    if(aff.count(n.first)) gone = left == 0 || (md2 && left == 2 && b.nodes.count(n.first) == 0);
                    if(gone) ++expNodesGone;
                    REQUIRE(gone == !b.nodes.count(n.first), "mergeFacesCompletely: node " << n.first << " with remaining degree " << left << (gone ? " still exists" : " vanished"));
                    if(md2 && aff.count(n.first) && b.nodes.count(n.first))
                    { auto const &ob = b.nodes.at(n.first).orbit; REQUIRE(!(ob.size() == 2 && std::abs(ob[0]) != std::abs(ob[1])), "mergeFacesCompletely left degree-2 node " << n.first << " at the removed boundary"); }
                }
                if(!md2) requireEdges(a, b, common, std::set<CellLabel>(), go, su, "mergeFacesCompletely");
                g.classify("mergeFacesCompletely"); g.classify("several common edges", common.size() > 1); removed += common.size();
            }
            if(prot && m->edge(prot)) m->edge(prot)->setFlag(0xff, false);
        }
        c1.disconnect(); c2.disconnect();
        checkAllAspects(*m);
    }
    g.nontrivial(removed > 0);
}

/********************************************************************/
/*                              P11                                 */
/********************************************************************/
PROP(P11, "at least one operation was refused because of protection flags")
{
    bool li = g.u(2);
    GenOpts o; o.maxSteps = 8; o.big = g.p(1,10);
    MapPtr m = genMap(g, li, o);
    std::unique_ptr<EdgeProtection> ep;
    bool late = g.u(2);
    if(late) { ep.reset(new EdgeProtection()); REQUIRE(!ep->map(), "unattached EdgeProtection has a map"); ep->attachHooks(m); }
    else ep.reset(new EdgeProtection(m));
    REQUIRE(ep->map() == m, "EdgeProtection::map()");
    bool attached = true; int refused = 0, allowed = 0;
    int n = g.i(2, 12);
    for(int k = 0; k < n; ++k)
    {
        Snap a = snap(*m);
        if(a.edges.empty()) break;
        int op = g.u(12);
        auto it = a.edges.begin(); std::advance(it, g.u(a.edges.size()));
        CellLabel l = it->first;
        if(op <= 3)
        {
            unsigned bit = g.u(13); bool on = g.p(3,4);
            g.text << "setFlag(" << l << ", bit " << bit << ", " << on << ")\n";
            m->edge(l)->setFlag(1u << bit, on);
            unsigned want = on ? it->second.flags | (1u << bit) : it->second.flags & ~(1u << bit);
            Snap b = snap(*m), w = a; w.edges[l].flags = want;
            requireUnchanged(w, b, "setFlag");
        }
        else if(op <= 6)
        {
            bool prot = (it->second.flags & 0xff) != 0;
            int d = g.u(2) ? (int)l : -(int)l; bool br = it->second.l == it->second.r, gen = g.u(2);
            g.text << (gen ? "removeEdge" : br ? "removeBridge" : "mergeFaces") << "(" << d << ")\n";
            GeoMap::FacePtr r = gen ? m->removeEdge(m->dart(d)) : br ? m->removeBridge(m->dart(d)) : m->mergeFaces(m->dart(d));
            Snap b = snap(*m);
            if(attached && prot)
            { ++refused; REQUIRE(!r, "protected edge " << l << " (flags " << it->second.flags << ") was removed"); requireUnchanged(a, b, "refused removal"); }
            else
            { ++allowed; REQUIRE(r && !b.edges.count(l), "unprotected edge " << l << " (flags " << it->second.flags << ") was not removed"); }
        }
        else if(op <= 9)
        {
            auto v = deg2(a); if(v.empty()) continue;
            CellLabel nd = g.pick(v); int w = g.u(2);
            auto orb = a.nodes.at(nd).orbit;
            unsigned f1 = a.edges.at(std::abs(orb[0])).flags, f2 = a.edges.at(std::abs(orb[1])).flags;
            g.text << "mergeEdges(" << orb[w] << ") flags " << f1 << "/" << f2 << "\n";
            GeoMap::EdgePtr r = m->mergeEdges(m->dart(orb[w]));
            Snap b = snap(*m);
            if(attached && f1 != f2)
            { ++refused; REQUIRE(!r, "edges with different flags " << f1 << "/" << f2 << " were merged"); requireUnchanged(a, b, "refused mergeEdges"); }
            else { ++allowed; REQUIRE(r && r->flags() == a.edges.at(r->label()).flags && b.edges.size() + 1 == a.edges.size(), "mergeEdges was refused although the flags agree"); }
        }
        else if(op == 10)
        {
            unsigned np = it->second.pts.size(); if(np < 3) continue;
            unsigned seg = 1 + g.u(np - 2);
            g.text << "splitEdge(" << l << "," << seg << ")\n";
            GeoMap::EdgePtr r = m->splitEdge(*m->edge(l), seg);
            REQUIRE(r && r->flags() == it->second.flags && m->edge(l)->flags() == it->second.flags, "splitEdge: flags not preserved on both parts");
        }
        else if(attached && g.p(1,2))
        {
            int how = g.u(2);
            g.text << (how ? "detachHooks\n" : "destroy EdgeProtection\n");
            if(how) { ep->detachHooks(); REQUIRE(!ep->map(), "detached EdgeProtection has a map"); } else ep.reset();
            attached = false; g.classify(how ? "detached" : "destroyed");
        }
        else if(!attached)
        {
            g.text << "attach again\n";
            if(!ep) ep.reset(new EdgeProtection());
            ep->attachHooks(m); attached = true; g.classify("attached again");
            bool thrown = false; try { ep->attachHooks(m); } catch(vigra::ContractViolation &) { thrown = true; }
            REQUIRE(thrown, "attaching an attached EdgeProtection was not refused");
        }
        checkTopology(*m);
    }
    g.classify("some operation allowed", allowed > 0);
    g.nontrivial(refused > 0);
}

/********************************************************************/
/*                              P12                                 */
/********************************************************************/
template<class T> struct Ch { static int n() { return 1; } static double get(T const &v, int) { return v; } static T make(pbt::Ctx &g) { return T(g.i(-4, 20)); } };
template<class T, int N> struct Ch<vigra::TinyVector<T, N> > { static int n() { return N; } static double get(vigra::TinyVector<T, N> const &v, int i) { return v[i]; }
    static vigra::TinyVector<T, N> make(pbt::Ctx &g) { vigra::TinyVector<T, N> r; for(int i = 0; i < N; ++i) r[i] = g.i(-4, 20); return r; } };

template<class T>
static void statsHistory(pbt::Ctx &g)
{
    typedef vigra::MultiArray<2, T> Img;
    GenOpts o; o.maxSteps = 10; o.outside = false;
    MapPtr m;
    bool small = g.p(1,3);
    if(small)
    {   // small faces in the middle of an image
        o.maxSteps = 8; o.big = false;
        MapSpec sp = genGraphMap(g, o);
        double f = g.pick(std::vector<double>{1, .5, .5, .25});
        auto tr = [&](P &p) { p = P(3 + p.x * f, 3 + p.y * f); };
        double mx = 0, my = 0;
        for(auto &p : sp.nodes) tr(p);
        for(auto &e : sp.edges) for(auto &p : e.pts) { tr(p); mx = std::max(mx, p.x); my = std::max(my, p.y); }
        sp.W = std::max(8, (int)mx + 4); sp.H = std::max(8, (int)my + 4);
        g.text << sp.str(); g.classify("small faces");
        m = buildGraph(sp); m->initializeMap(true);
    }
    else m = genMap(g, true, o);
    int W = m->imageSize().x, H = m->imageSize().y;
    unsigned minS = g.pick(small ? std::vector<unsigned>{1, 2, 3, 4, 6, 9} : std::vector<unsigned>{0, 1, 1, 2, 4});
    // supersampling interpolates the image: keep it to maps whose faces lie inside the image
    if(minS)
        for(auto const &e : snap(*m).edges) for(auto const &p : e.second.pts)
            if(p.x < 0 || p.y < 0 || p.x > W - 1 || p.y > H - 1) minS = 0;
    if(minS && (W < 8 || H < 8)) minS = 0;   // order-5 spline interpolation needs that much
    Img img(typename Img::difference_type(W, H));
    int ramp = minS ? g.u(3) : 0; T rx = Ch<T>::make(g), ry = Ch<T>::make(g), r0 = Ch<T>::make(g);     // linear or constant images
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) img(x, y) = ramp == 0 ? Ch<T>::make(g) : ramp == 1 ? T(r0 + rx * float(x) * 0.25f + ry * float(y) * 0.25f) : r0;
    g.text << "image:"; for(int y = 0; y < H; ++y) { for(int x = 0; x < W; ++x) g.text << " " << Ch<T>::get(img(x, y), 0); g.text << " /"; } g.text << "\nminSampleCount " << minS << "\n";
    double norm = g.pick(std::vector<double>{1.0, 4.0, 255.0});
    double scale = 0; if(ramp) for(int i = 0; i < W * H; ++i) for(int c = 0; c < Ch<T>::n(); ++c) scale = std::max(scale, std::abs(Ch<T>::get(img(i % W, i / W), c)));
    std::unique_ptr<FaceColorStatistics<Img> > st(new FaceColorStatistics<Img>(m, img, norm, minS));
    typedef FaceColorStatistics<Img> FCS;
    // faces with exact statistics: never supersampled, merged with such a face, or having obtained enough pixels; faces with enough samples
    std::set<CellLabel> exact, sampled; CellLabel ml = 0, mr = 0; bool exactMerge = false;
    {
        Snap a = snap(*m); std::map<int, unsigned> n; for(int l : a.li) if(l >= 0) ++n[l];
        unsigned small = 0;
        for(auto const &f : a.faces)
        {
            if(!f.first || n[f.first] >= minS) exact.insert(f.first); else ++small;
            if(st->pixelCount(f.first) >= minS) sampled.insert(f.first);
            else REQUIRE(!f.first || m->face(f.first)->area() < 0.05 * minS, "face " << f.first << " with area " << m->face(f.first)->area() << " has only " << st->pixelCount(f.first) << " samples");
        }
        REQUIRE(st->superSampledCount() == small, "superSampledCount() = " << st->superSampledCount() << ", but " << small << " faces have less than " << minS << " pixels");
    }
    boost::signals2::scoped_connection c1(m->preMergeFacesHook.connect([&](GeoMap::Dart const &d) { ml = d.leftFaceLabel(); mr = d.rightFaceLabel(); return true; }));
    boost::signals2::scoped_connection c2(m->postMergeFacesHook.connect([&](GeoMap::Face &f) {
        bool e = exact.count(ml) || exact.count(mr), s = sampled.count(ml) || sampled.count(mr);
        if(exact.count(ml) + exact.count(mr) == 1) exactMerge = true;
        exact.erase(ml); exact.erase(mr); sampled.erase(ml); sampled.erase(mr);
        if(e) exact.insert(f.label());
        if(s) sampled.insert(f.label()); }));
    boost::signals2::scoped_connection c3(m->associatePixelsHook.connect([&](GeoMap::Face const &f, PixelList const &) { if(f.pixelArea() >= minS) exact.insert(f.label()); }));
    auto check = [&](FCS &s, bool atAll)
    {
        Snap a = snap(*m);
        bool ss = s.superSampledCount() > 0;
        g.classify("supersampled faces", ss);
        unsigned inexact = 0;
        std::map<int, std::vector<int> > px;
        for(int i = 0; i < W * H; ++i) if(a.li[i] >= 0) px[a.li[i]].push_back(i);
        REQUIRE(s.checkConsistency() || !atAll, "FaceColorStatistics::checkConsistency() failed");
        for(auto const &f : a.faces)
        {
            REQUIRE(s[f.first] != 0, "face " << f.first << " has no statistics");
            std::vector<int> const &v = px[f.first];
            if(f.first && sampled.count(f.first)) REQUIRE(s.pixelCount(f.first) >= minS, "face " << f.first << " has only " << s.pixelCount(f.first) << " samples, not " << minS);
            if(ss && !exact.count(f.first))
            {
                inexact += 1;
                if(!s.pixelCount(f.first)) continue;
                GeoMap::Face::BoundingBox bb = m->face(f.first)->boundingBox();
                for(int c = 0; c < Ch<T>::n(); ++c)
                {   // samples lie inside the face
                    double av = Ch<typename FCS::Functor::result_type>::get(s.average(f.first), c), lo, hi, eps;
                    if(ramp == 0)
                    {
                        lo = 1e9; hi = -1e9; for(int i = 0; i < W * H; ++i) { double x = Ch<T>::get(img(i % W, i / W), c); lo = std::min(lo, x); hi = std::max(hi, x); }
                        eps = 2 * (hi - lo) + 1e-2;
                    }
                    else
                    {
                        double x = ramp == 1 ? Ch<T>::get(rx, c) * .25 : 0, y = ramp == 1 ? Ch<T>::get(ry, c) * .25 : 0;
                        lo = Ch<T>::get(r0, c) + std::min(x * bb.begin()[0], x * bb.end()[0]) + std::min(y * bb.begin()[1], y * bb.end()[1]);
                        hi = Ch<T>::get(r0, c) + std::max(x * bb.begin()[0], x * bb.end()[0]) + std::max(y * bb.begin()[1], y * bb.end()[1]);
                        eps = (std::abs(x) + std::abs(y)) * (small ? 0.05 : 0.5) + 1e-2;
                    }
                    REQUIRE(av > lo - eps && av < hi + eps, "average(" << f.first << ") = " << av << " is not in the range " << lo << ".." << hi << " of the image values in that face");
                }
                continue;
            }
            REQUIRE(s.pixelCount(f.first) == v.size(), "pixelCount(" << f.first << ") = " << s.pixelCount(f.first) << ", but the face has " << v.size() << " pixels");
            if(v.empty()) continue;
            for(int c = 0; c < Ch<T>::n(); ++c)
            {
                double sum = 0, sq = 0; for(int i : v) sum += Ch<T>::get(img(i % W, i / W), c);
                double avg = sum / v.size(); for(int i : v) { double d = Ch<T>::get(img(i % W, i / W), c) - avg; sq += d * d; }
                double ga = Ch<typename FCS::Functor::result_type>::get(s.average(f.first), c), gv = Ch<typename FCS::Functor::result_type>::get(s.variance(f.first, false), c);
                REQUIRE(std::abs(ga - avg) < 1e-3 + 1e-5 * scale, "average(" << f.first << ") = " << ga << " instead of " << avg);
                REQUIRE(std::abs(gv - sq / v.size()) < 1e-2 + 1e-5 * scale * scale, "variance(" << f.first << ") = " << gv << " instead of " << sq / v.size());
                if(v.size() > 1)
                { double gu = Ch<typename FCS::Functor::result_type>::get(s.variance(f.first, true), c); REQUIRE(std::abs(gu - sq / (v.size() - 1)) < 1e-2 + 1e-5 * scale * scale, "unbiased variance(" << f.first << ") = " << gu << " instead of " << sq / (v.size() - 1)); }
            }
        }
        REQUIRE(s.superSampledCount() <= inexact, "superSampledCount() = " << s.superSampledCount() << ", but at most " << inexact << " faces can be supersampled");
        for(CellLabel l = 0; l < s.size(); ++l) REQUIRE(a.faces.count(l) || !s[l], "statistics of removed face " << l << " still exist");
        for(auto const &e : a.edges)
        {
            if(e.second.l == e.second.r) continue;
            if(px[e.second.l].empty() || px[e.second.r].empty() || ss) continue;
            GeoMap::Dart d = m->dart(e.first);
            double sq = 0;
            for(int c = 0; c < Ch<T>::n(); ++c)
            {
                double av[2]; for(int k = 0; k < 2; ++k) { auto const &v = px[k ? e.second.l : e.second.r]; double sum = 0; for(int i : v) sum += Ch<T>::get(img(i % W, i / W), c); av[k] = sum / v.size(); }
                sq += (av[0] - av[1]) * (av[0] - av[1]);
            }
            double want = std::sqrt(sq) / norm, got = s.faceMeanDiff(d);
            REQUIRE(std::abs(want - got) < 1e-3 + 1e-5 * scale, "faceMeanDiff(" << e.first << ") = " << got << " instead of " << want);
            if(e.second.l && e.second.r)
            {
                double a1 = m->face(e.second.l)->area(), a2 = m->face(e.second.r)->area(), h = a1 * a2 / (a1 + a2);
                REQUIRE(std::abs(s.faceAreaHomogeneity(d) - h) < 1e-6 * (1 + h), "faceAreaHomogeneity(" << e.first << ")");
                REQUIRE(std::abs(s.faceHomogeneity2(d) - want * want * h) < 1e-2 * (1 + want * want * h), "faceHomogeneity2(" << e.first << ") = " << s.faceHomogeneity2(d) << " instead of " << want * want * h);
            }
        }
        if(g.p(1,3) && !ss)
        {   // region image: average per face, 0 on edge pixels
            typedef typename FCS::Functor::result_type R;
            vigra::MultiArray<2, R> out(typename vigra::MultiArray<2, R>::difference_type(W, H));
            s.copyRegionImage(destImage(out));
            for(int i = 0; i < W * H; ++i) for(int c = 0; c < Ch<T>::n(); ++c)
            {
                double got = Ch<R>::get(out(i % W, i / W), c), want = a.li[i] < 0 ? 0.0 : Ch<R>::get(s.average(a.li[i]), c);
                REQUIRE(std::abs(got - want) < 1e-4, "copyRegionImage: pixel " << i % W << "," << i / W << " = " << got << " instead of " << want);
            }
        }
    };
    check(*st, true);
    Aspects none; History h(g, m, none); h.flagEdges = false; h.allowRename = false;
    int n = g.i(1, 10);
    bool vetoer = g.p(1,4); boost::signals2::connection con;
    if(vetoer) { con = m->preMergeFacesHook.connect([&](GeoMap::Dart const &) { bool v = g.p(1,3); if(v) g.text << "(vetoed)\n"; return !v; }); g.classify("vetoed merges"); }
    for(int k = 0; k < n; ++k)
    {
        h.warm();
        if(!h.step()) break;
        if(g.p(1,10))
        {
            FCS copy(*st); g.text << "copy statistics\n"; g.classify("copied");
            for(CellLabel l = 0; l < st->size(); ++l) REQUIRE(!(*st)[l] == !copy[l] && (!copy[l] || (copy.pixelCount(l) == st->pixelCount(l) && (!copy.pixelCount(l) || copy.average(l) == st->average(l)))), "copied statistics differ for face " << l);
        }
        check(*st, true);
    }
    con.disconnect();
    int how = g.u(3);
    if(how == 1) { g.text << "detach\n"; st->detachHooks(); h.run(3); }
    else if(how == 2) { g.text << "destroy statistics\n"; st.reset(); h.run(3); }
    g.classify("supersampled merged with pixel-sampled face", exactMerge);
    g.nontrivial(h.merges + h.bridgesRemoved > 0);
}
PROP(P12, "at least one face merge or bridge removal happened under attached statistics")
{ if(g.u(3)) statsHistory<float>(g); else statsHistory<vigra::TinyVector<float, 3> >(g); }

int main(int argc, char **argv) { return pbt::main_(argc, argv); }
