// GeoMap harness: generators of planar maps, snapshots through the public API,
// and an independent planar-embedding oracle.
#ifndef GM_HXX
#define GM_HXX

#include "pbt.hxx"
#include "cppmap.hxx"
#include "cppmap_utils.hxx"
#include "crackedgemap.hxx"
#include <vigra/stdimage.hxx>

#include <boost/shared_ptr.hpp>
typedef boost::shared_ptr<GeoMap> MapPtr;

namespace gm {

struct P { double x, y; P(double a=0, double b=0) : x(a), y(b) {}
    bool operator==(P const &o) const { return x == o.x && y == o.y; }
    bool operator!=(P const &o) const { return !(*this == o); }
    bool operator<(P const &o) const { return x < o.x || (x == o.x && y < o.y); } };
typedef std::vector<P> Pts;

inline P toP(Vector2 const &v) { return P(v[0], v[1]); }
inline Vector2 toV(P const &p) { return Vector2(p.x, p.y); }
inline std::ostream &operator<<(std::ostream &o, P const &p) { return o << "(" << p.x << "," << p.y << ")"; }
inline std::ostream &operator<<(std::ostream &o, Pts const &p)
{ for(size_t i = 0; i < p.size(); ++i) o << (i ? " " : "") << p[i]; return o; }

// all generated coordinates are small dyadic rationals => these are exact
inline double cross(P const &o, P const &a, P const &b)
{ return (a.x-o.x)*(b.y-o.y) - (a.y-o.y)*(b.x-o.x); }
inline bool onSeg(P const &p, P const &a, P const &b)   // closed segment
{
    return cross(a, b, p) == 0 && std::min(a.x,b.x) <= p.x && p.x <= std::max(a.x,b.x)
        && std::min(a.y,b.y) <= p.y && p.y <= std::max(a.y,b.y);
}
inline int sgn(double d) { return d > 0 ? 1 : d < 0 ? -1 : 0; }
// do closed segments intersect at all?
inline bool segsTouch(P const &a, P const &b, P const &c, P const &d)
{
    int o1 = sgn(cross(a,b,c)), o2 = sgn(cross(a,b,d)), o3 = sgn(cross(c,d,a)), o4 = sgn(cross(c,d,b));
    if(o1 != o2 && o3 != o4) return true;
    return onSeg(c,a,b) || onSeg(d,a,b) || onSeg(a,c,d) || onSeg(b,c,d);
}

/********************************************************************/
// description of a map to be built
struct EdgeSpec { int s, e; Pts pts; };
struct MapSpec
{
    int W, H;
    std::vector<P> nodes; std::vector<int> nodeGap;   // gap before this node label
    std::vector<EdgeSpec> edges; std::vector<int> edgeGap;
    bool crack;
    std::string str() const
    {
        std::ostringstream o;
        o << "size " << W << "x" << H << (crack ? " crack" : "") << "\n";
        for(size_t i = 0; i < nodes.size(); ++i) o << " n" << i << " " << nodes[i] << (nodeGap[i] ? " gap" : "") << "\n";
        for(size_t i = 0; i < edges.size(); ++i)
            o << " e" << i+1 << " " << edges[i].s << "->" << edges[i].e << " : " << edges[i].pts
              << (edgeGap[i] ? " gap" : "") << "\n";
        return o.str();
    }
};

struct Graph   // planar straight-line graph on a lattice
{
    std::vector<P> v;
    std::vector<std::pair<int,int> > s;
    int find(P const &p) const { for(size_t i = 0; i < v.size(); ++i) if(v[i] == p) return i; return -1; }
    bool canAddPoint(P const &p) const
    {
        for(auto const &e : s) if(onSeg(p, v[e.first], v[e.second])) return false;
        return true;
    }
    bool addSeg(P const &a, P const &b)
    {
        if(a == b) return false;
        int ia = find(a), ib = find(b);
        if(ia < 0 && !canAddPoint(a)) return false;
        if(ib < 0 && !canAddPoint(b)) return false;
        for(size_t i = 0; i < v.size(); ++i)
            if((int)i != ia && (int)i != ib && onSeg(v[i], a, b)) return false;
        for(auto const &e : s)
        {
            P c = v[e.first], d = v[e.second];
            bool sh1 = (c == a || c == b), sh2 = (d == a || d == b);
            if(sh1 && sh2) return false;           // duplicate
            if(sh1 || sh2)
            {   // share one end point: must not overlap
                P o = sh1 ? c : d, q = sh1 ? d : c, r = (o == a) ? b : a;
                if(onSeg(q, o, r) || onSeg(r, o, q)) return false;
                continue;
            }
            if(segsTouch(a, b, c, d)) return false;
        }
        if(ia < 0) { ia = v.size(); v.push_back(a); }
        if(ib < 0) { ib = v.size(); v.push_back(b); }
        s.push_back(std::make_pair(ia, ib));
        return true;
    }
};

struct GenOpts
{
    bool isolated, outside, gaps, big; int maxSteps; bool noBridges;
    GenOpts() : isolated(true), outside(true), gaps(true), big(true), maxSteps(14), noBridges(false) {}
};

inline MapSpec fromGraph(pbt::Ctx &g, Graph const &gr, int W, int H, GenOpts const &o)
{
    MapSpec m; m.W = W; m.H = H; m.crack = false;
    int nv = gr.v.size();
    std::vector<std::vector<int> > inc(nv);
    for(size_t i = 0; i < gr.s.size(); ++i) { inc[gr.s[i].first].push_back(i); inc[gr.s[i].second].push_back(i); }
    std::vector<int> isNode(nv, 0);
    for(int i = 0; i < nv; ++i)
        if(inc[i].size() != 2) isNode[i] = 1; else isNode[i] = g.u(2);
    // cycles without node get one
    {
        std::vector<int> seen(nv, 0);
        for(int i = 0; i < nv; ++i) if(isNode[i]) seen[i] = 1;
        // flood from nodes through deg-2 vertices
        std::vector<int> st; for(int i = 0; i < nv; ++i) if(isNode[i]) st.push_back(i);
        while(!st.empty()) { int k = st.back(); st.pop_back(); for(int e : inc[k]) {
            int q = gr.s[e].first == k ? gr.s[e].second : gr.s[e].first; if(!seen[q]) { seen[q] = 1; st.push_back(q); } } }
        for(int i = 0; i < nv; ++i) if(!seen[i])
        {
            isNode[i] = 1; seen[i] = 1; st.push_back(i);
            while(!st.empty()) { int k = st.back(); st.pop_back(); for(int e : inc[k]) {
                int q = gr.s[e].first == k ? gr.s[e].second : gr.s[e].first; if(!seen[q]) { seen[q] = 1; st.push_back(q); } } }
        }
    }
    std::vector<int> nl(nv, -1);
    for(int i = 0; i < nv; ++i) if(isNode[i]) { nl[i] = m.nodes.size(); m.nodes.push_back(gr.v[i]); }
    std::vector<int> used(gr.s.size(), 0);
    std::vector<EdgeSpec> es;
    for(int i = 0; i < nv; ++i) if(isNode[i])
        for(int e0 : inc[i])
        {
            if(used[e0]) continue;
            EdgeSpec e; e.s = nl[i]; e.pts.push_back(gr.v[i]);
            int cur = i, ed = e0;
            while(true)
            {
                used[ed] = 1;
                cur = gr.s[ed].first == cur ? gr.s[ed].second : gr.s[ed].first;
                e.pts.push_back(gr.v[cur]);
                if(isNode[cur]) break;
                ed = inc[cur][0] == ed ? inc[cur][1] : inc[cur][0];
            }
            e.e = nl[cur];
            if(g.p(1,2)) { std::reverse(e.pts.begin(), e.pts.end()); std::swap(e.s, e.e); }
            es.push_back(e);
        }
    // random label order
    for(size_t i = 0; i + 1 < es.size(); ++i) { size_t k = i + g.u(std::min<size_t>(es.size() - i, 4)); std::swap(es[i], es[k]); }
    m.edges = es;
    m.nodeGap.assign(m.nodes.size(), 0); m.edgeGap.assign(es.size(), 0);
    if(o.gaps && g.p(1,6))
    {
        for(auto &x : m.nodeGap) x = g.p(1,4);
        for(auto &x : m.edgeGap) x = g.p(1,4);
    }
    return m;
}

inline MapSpec genGraphMap(pbt::Ctx &g, GenOpts const &o = GenOpts())
{
    int W = g.i(4, 14), H = g.i(4, 14);
    int q = g.pick(std::vector<int>{1, 2, 4, 1});
    double off = g.pick(std::vector<double>{0.0, -0.5, 0.25, -0.125});
    int lo = (o.outside && g.p(1,5)) ? -1 : 0, hi = 0;
    if(o.outside && g.p(1,12))
    {   // far beyond the image, flat or wide images
        lo = -g.i(2, 9); hi = g.i(0, 9);
        if(g.u(2)) (g.u(2) ? W : H) = g.i(1, 3);
        else if(g.p(1,4)) (g.u(2) ? W : H) = g.i(65, 90);
        g.classify("far outside the image");
    }
    auto coord = [&](int S) { return lo + off + (double)g.u((S + hi - lo) * q) / q; };
    auto pt = [&]() { double x = coord(W); return P(x, coord(H)); };
    Graph gr;
    if(o.big && g.p(1,8))
    {   // lattice map: many edges, crosses the initial dart table size
        int w = g.i(3, std::max(3, std::min(W, 8))), h = g.i(3, std::max(3, std::min(H, 8))), keep = g.i(5, 10);
        if(g.p(1,150)) { w = h = g.i(12, 17); keep = 10; g.classify("huge map"); }
        double sx = (W - 1) / (double)w >= 1 ? 1 : 1, sy = sx;
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x)
        {
            P a(off + x*sx, off + y*sy);
            if(x + 1 < w && g.p(keep, 10)) gr.addSeg(a, P(off + (x+1)*sx, off + y*sy));
            if(y + 1 < h && g.p(keep, 10)) gr.addSeg(a, P(off + x*sx, off + (y+1)*sy));
        }
    }
    int steps = g.i(1, o.maxSteps);
    for(int k = 0; k < steps; ++k)
    {
        int kind = g.u(8);
        if(kind <= 1)      // free segment
        {
            P a = gr.v.size() && g.p(2,3) ? gr.v[g.u(gr.v.size())] : pt();
            P b = gr.v.size() && g.p(1,2) ? gr.v[g.u(gr.v.size())] : pt();
            gr.addSeg(a, b);
        }
        else if(kind <= 3) // rectangle / triangle / diamond contour
        {
            P a = pt(), b = pt();
            double x0 = std::min(a.x,b.x), x1 = std::max(a.x,b.x), y0 = std::min(a.y,b.y), y1 = std::max(a.y,b.y);
            Pts c;
            int shape = g.u(3);
            if(shape == 0) c = Pts{P(x0,y0), P(x1,y0), P(x1,y1), P(x0,y1)};
            else if(shape == 1) c = Pts{P(x0,y0), P(x1,y0), P((x0+x1)/2,y1)};
            else c = Pts{P((x0+x1)/2,y0), P(x1,(y0+y1)/2), P((x0+x1)/2,y1), P(x0,(y0+y1)/2)};
            for(size_t i = 0; i < c.size(); ++i) gr.addSeg(c[i], c[(i+1)%c.size()]);
        }
        else if(kind == 4) // path
        {
            P a = gr.v.size() && g.p(1,2) ? gr.v[g.u(gr.v.size())] : pt();
            int n = g.p(1,12) ? g.i(12, 60) : g.i(1, 5);
            for(int i = 0; i < n; ++i)
            {
                P b(a.x + g.i(-3, 3) / (double)q, a.y + g.i(-3, 3) / (double)q);
                if(gr.addSeg(a, b)) a = b;
            }
        }
        else if(kind == 5) // join two existing vertices
        {
            if(gr.v.size() > 1) { P a = gr.v[g.u(gr.v.size())], b = gr.v[g.u(gr.v.size())]; gr.addSeg(a, b); }
        }
        else if(kind == 6) // nested ring around a small box
        {
            P c = pt(); int r = g.i(1, 3); double st = q > 1 ? 0.5 : 1.0, d0 = st * g.u(5);
            if(g.p(1,3))
            {   // open bracket or thin C around a box (a concave contour whose chords cross another face)
                double d = d0 + 2*st, e = d - st * (g.u(2) ? 0.5 : 1.0), in = st + g.u(3) * (d0 / 4), o2 = g.u(2) ? d : in;
                Pts b{P(o2,-d), P(-d,-d), P(-d,d), P(o2,d)};
                bool thin = g.u(2) && e > in;
                if(thin) { b.push_back(P(o2,e)); b.push_back(P(-e,e)); b.push_back(P(-e,-e)); b.push_back(P(o2,-e)); }
                int rot = g.u(4);
                for(auto &x : b) { for(int k2 = 0; k2 < rot; ++k2) x = P(-x.y, x.x); x = P(c.x + x.x, c.y + x.y); }
                if(g.u(2)) { Pts f{P(c.x-in,c.y-in), P(c.x+in,c.y-in), P(c.x+in,c.y+in), P(c.x-in,c.y+in)};
                    for(int i = 0; i < 4; ++i) gr.addSeg(f[i], f[(i+1)%4]); r = 0; }
                for(size_t i = 0; i + (thin ? 0 : 1) < b.size(); ++i) gr.addSeg(b[i], b[(i+1)%b.size()]);
                if(r) r = 1;
                if(r) d0 = in - st;
            }
            for(int j = 1; j <= r; ++j)
            {
                double d = d0 + j * st;
                Pts b{P(c.x-d,c.y-d), P(c.x+d,c.y-d), P(c.x+d,c.y+d), P(c.x-d,c.y+d)};
                for(int i = 0; i < 4; ++i) gr.addSeg(b[i], b[(i+1)%4]);
            }
        }
        else               // isolated vertex
        {
            P a = pt();
            if(o.isolated && gr.find(a) < 0 && gr.canAddPoint(a)) gr.v.push_back(a);
        }
    }
    return fromGraph(g, gr, W, H, o);
}

// the label image of a crack map
struct LabelImg { int W, H; std::vector<int> d; bool eight;
    int operator()(int x, int y) const { return d[y*W+x]; } };

inline LabelImg genLabelImg(pbt::Ctx &g, int maxS = 8)
{
    LabelImg im; im.W = g.i(1, maxS); im.H = g.i(1, maxS);
    int nl = g.i(1, 4);
    im.d.resize(im.W * im.H);
    for(auto &x : im.d) x = g.u(nl);
    // paint some rectangles to get bigger regions
    int nr = g.i(0, 4);
    for(int k = 0; k < nr; ++k)
    {
        int x0 = g.u(im.W), x1 = g.u(im.W), y0 = g.u(im.H), y1 = g.u(im.H), l = g.u(nl+1);
        if(x0 > x1) std::swap(x0,x1);
        if(y0 > y1) std::swap(y0,y1);
        for(int y = y0; y <= y1; ++y) for(int x = x0; x <= x1; ++x) im.d[y*im.W+x] = l;
    }
    im.eight = g.p(1,3);
    if(g.p(1,3))
    {   // diagonal rings and diagonal lines: contours that touch at corners only
        int n = g.i(1, 3);
        for(int k = 0; k < n; ++k)
        {
            int cx = g.u(im.W), cy = g.u(im.H), r = g.u(4), l = g.u(nl+1), kind = g.u(3);
            for(int y = 0; y < im.H; ++y) for(int x = 0; x < im.W; ++x)
            {
                int dx = x - cx, dy = y - cy;
                if(kind == 0 ? std::abs(dx) + std::abs(dy) == r : kind == 1 ? dx == dy : ((dx + dy) & 1) == 0 && std::abs(dx) <= r && std::abs(dy) <= r) im.d[y*im.W+x] = l;
            }
        }
    }
    return im;
}
inline std::string str(LabelImg const &im)
{
    std::ostringstream o; o << "label image " << im.W << "x" << im.H << (im.eight ? " 8-conn" : "") << "\n";
    for(int y = 0; y < im.H; ++y) { for(int x = 0; x < im.W; ++x) o << " " << im(x,y); o << "\n"; }
    return o.str();
}

inline MapPtr buildCrack(LabelImg const &im, bool labelImage)
{
    vigra::IImage img(im.W, im.H);
    for(int y = 0; y < im.H; ++y) for(int x = 0; x < im.W; ++x) img(x, y) = im(x, y);
    CrackEdgeMapGenerator gen(srcImageRange(img), im.eight);
    gen.initializeMap(labelImage);
    return MapPtr(gen.result.release());
}

// creates nodes and edges only
inline MapPtr buildGraph(MapSpec const &m)
{
    MapPtr map(new GeoMap(vigra::Size2D(m.W, m.H)));
    std::vector<CellLabel> nl;
    for(size_t i = 0; i < m.nodes.size(); ++i)
    {
        GeoMap::NodePtr n = m.nodeGap[i] ? map->addNode(toV(m.nodes[i]), map->maxNodeLabel() + 1 + i % 2)
                                         : map->addNode(toV(m.nodes[i]));
        nl.push_back(n->label());
    }
    for(size_t i = 0; i < m.edges.size(); ++i)
    {
        Vector2Array a;
        for(auto const &p : m.edges[i].pts) a.push_back(toV(p));
        GeoMap::Node &s(*map->node(nl[m.edges[i].s])), &e(*map->node(nl[m.edges[i].e]));
        map->addEdge(s, e, a, m.edgeGap[i] ? map->maxEdgeLabel() + 1 + i % 2 : 0);
    }
    return map;
}

/********************************************************************/
// snapshot of everything observable
struct ENode { P pos; std::vector<int> orbit; bool isolated; };
struct EEdge { CellLabel s, e, l, r; Pts pts; unsigned flags; };
struct EFace { std::vector<int> anchors; unsigned flags; unsigned pixelArea; };
struct Snap
{
    std::map<CellLabel, ENode> nodes;
    std::map<CellLabel, EEdge> edges;
    std::map<CellLabel, EFace> faces;
    CellLabel maxN, maxE, maxF;
    std::vector<int> li;     // resolved label image
};

inline std::vector<int> resolvedLabels(GeoMap &m)
{
    std::vector<int> r;
    if(!m.hasLabelImage()) return r;
    int W = m.imageSize().x, H = m.imageSize().y;
    GeoMap::LabelImageIterator ul = m.labelsUpperLeft();
    GeoMap::LabelImageAccessor a = m.labelAccessor();
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) r.push_back(a(ul, vigra::Diff2D(x, y)));
    return r;
}

inline Snap snap(GeoMap &m)
{
    Snap s; s.maxN = m.maxNodeLabel(); s.maxE = m.maxEdgeLabel(); s.maxF = m.maxFaceLabel();
    for(GeoMap::NodeIterator it = m.nodesBegin(); it.inRange(); ++it)
    {
        ENode n; n.pos = toP((*it)->position()); n.isolated = (*it)->isIsolated();
        if(!n.isolated)
        {
            GeoMap::Dart d = (*it)->anchor(); int a = d.label(); int guard = 0;
            do { n.orbit.push_back(d.label()); d.nextSigma(); REQUIRE(++guard < 10000, "sigma orbit of node " << (*it)->label() << " does not close"); } while(d.label() != a);
        }
        s.nodes[(*it)->label()] = n;
    }
    for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
    {
        EEdge e; e.s = (*it)->startNodeLabel(); e.e = (*it)->endNodeLabel();
        e.l = (*it)->leftFaceLabel(); e.r = (*it)->rightFaceLabel(); e.flags = (*it)->flags();
        for(unsigned i = 0; i < (*it)->size(); ++i) e.pts.push_back(toP((**it)[i]));
        s.edges[(*it)->label()] = e;
    }
    if(m.mapInitialized())
        for(GeoMap::FaceIterator it = m.facesBegin(); it.inRange(); ++it)
        {
            EFace f; f.flags = (*it)->flags() & ~0xf0000000u; f.pixelArea = (*it)->pixelArea();
            for(GeoMap::Face::ContourIterator c = (*it)->contoursBegin(); c != (*it)->contoursEnd(); ++c)
                f.anchors.push_back(c->label());
            s.faces[(*it)->label()] = f;
        }
    s.li = resolvedLabels(m);
    return s;
}

/********************************************************************/
// independent planar embedding computed from node positions + polylines only
struct Embedding
{
    std::map<int, int> sigma, sigmaInv;     // by geometric angle
    std::map<int, int> orbitOf;             // dart -> phi orbit id
    std::vector<std::vector<int> > orbits;
    std::vector<double> area;
    std::vector<int> comp;                  // component of orbit
    std::vector<int> parentOrbit;           // for exterior orbits: enclosing outer orbit or -1
    std::vector<bool> exterior;
    int components;
    Snap const *s;

    Pts dartPts(int d) const
    {
        Pts p = s->edges.at(std::abs(d)).pts;
        if(d < 0) std::reverse(p.begin(), p.end());
        return p;
    }
    static int half(P const &d) { return (d.y > 0 || (d.y == 0 && d.x > 0)) ? 0 : 1; }

    // strict inside test, even-odd over the darts of an orbit (bridges cancel)
    bool inside(int orbit, P const &p) const
    {
        bool in = false;
        for(int d : orbits[orbit])
        {
            Pts const &q = s->edges.at(std::abs(d)).pts;
            for(size_t i = 1; i < q.size(); ++i)
            {
                P a = q[i-1], b = q[i];
                if((a.y > p.y) != (b.y > p.y))
                {   // crossing to the right?
                    double c = cross(a, b, p);
                    if((b.y > a.y) == (c > 0)) in = !in;
                }
            }
        }
        return in;
    }

    Embedding(Snap const &sn) : components(0), s(&sn)
    {
        std::map<CellLabel, std::vector<int> > out;
        for(auto const &e : sn.edges) { out[e.second.s].push_back(e.first); out[e.second.e].push_back(-(int)e.first); }
        for(auto &n : out)
        {
            std::vector<std::pair<P,int> > ds;
            for(int d : n.second)
            {
                Pts p = dartPts(d);
                REQUIRE(p.size() >= 2, "edge " << std::abs(d) << " has fewer than two points");
                // y axis points down: flip, so that the order is counter-clockwise as displayed
                ds.push_back(std::make_pair(P(p[1].x - p[0].x, -(p[1].y - p[0].y)), d));
            }
            std::sort(ds.begin(), ds.end(), [](std::pair<P,int> const &a, std::pair<P,int> const &b) {
                int ha = half(a.first), hb = half(b.first);
                if(ha != hb) return ha < hb;
                return a.first.x*b.first.y - a.first.y*b.first.x > 0; });
            for(size_t i = 0; i < ds.size(); ++i)
            {
                int nx = ds[(i+1) % ds.size()].second;
                sigma[ds[i].second] = nx; sigmaInv[nx] = ds[i].second;
            }
        }
        finish();
    }
    // with the map's own sigma (already verified or for parallel edges)
    void finish()
    {
        Snap const &sn = *s;
        std::map<CellLabel, int> cn;   // node -> component
        {
            std::map<CellLabel, std::vector<CellLabel> > adj;
            for(auto const &e : sn.edges) { adj[e.second.s].push_back(e.second.e); adj[e.second.e].push_back(e.second.s); }
            for(auto const &a : adj) if(!cn.count(a.first))
            {
                int c = components++; std::vector<CellLabel> st(1, a.first); cn[a.first] = c;
                while(!st.empty()) { CellLabel k = st.back(); st.pop_back(); for(CellLabel q : adj[k]) if(!cn.count(q)) { cn[q] = c; st.push_back(q); } }
            }
        }
        for(auto const &x : sigma)
        {
            if(orbitOf.count(x.first)) continue;
            int id = orbits.size(); orbits.push_back(std::vector<int>());
            int d = x.first; double a = 0;
            do
            {
                orbitOf[d] = id; orbits[id].push_back(d);
                Pts p = dartPts(d);
                for(size_t i = 1; i < p.size(); ++i) a += p[i].x*p[i-1].y - p[i].y*p[i-1].x;
                d = sigmaInv[-d];
            } while(d != x.first);
            area.push_back(a / 2);
            comp.push_back(cn[sn.edges.at(std::abs(d)).s]);
        }
        exterior.resize(orbits.size()); parentOrbit.assign(orbits.size(), -1);
        std::vector<int> extCount(components, 0);
        for(size_t i = 0; i < orbits.size(); ++i)
        {
            exterior[i] = area[i] < 1e-9;
            if(exterior[i])
            {
                ++extCount[comp[i]];
                // (contours of 8-connected crack maps may touch in vertices: use a segment's midpoint)
                Pts q = dartPts(orbits[i][0]);
                P p((q[0].x + q[1].x) / 2, (q[0].y + q[1].y) / 2);
                for(size_t k = 0; k < orbits.size(); ++k)
                    if(comp[k] != comp[i] && area[k] >= 1e-9 && inside(k, p)
                       && (parentOrbit[i] < 0 || area[k] < area[parentOrbit[i]]))
                        parentOrbit[i] = k;
            }
        }
        for(int c = 0; c < components; ++c)
            REQUIRE(extCount[c] == 1, "component has " << extCount[c] << " exterior contours: edges no longer form a planar embedding");
    }
    // -1: infinite face, else outer orbit id
    int locate(P const &p) const
    {
        int r = -1;
        for(size_t k = 0; k < orbits.size(); ++k)
            if(area[k] >= 1e-9 && inside(k, p) && (r < 0 || area[k] < area[r])) r = k;
        return r;
    }
    bool onEdge(P const &p) const
    {
        for(auto const &e : s->edges) for(size_t i = 1; i < e.second.pts.size(); ++i)
            if(onSeg(p, e.second.pts[i-1], e.second.pts[i])) return true;
        return false;
    }
};

// face label expected for every outer orbit, according to the map's dart labels
inline std::map<int, CellLabel> orbitLabels(Embedding const &em, Snap const &s)
{
    std::map<int, CellLabel> r; r[-1] = 0;
    for(size_t k = 0; k < em.orbits.size(); ++k) if(!em.exterior[k])
    {
        int d = em.orbits[k][0];
        r[k] = d > 0 ? s.edges.at(d).l : s.edges.at(-d).r;
    }
    return r;
}

/********************************************************************/
// P01: the complete combinatorial contract
inline void checkGraph(GeoMap &m, Snap const &s, Embedding const &em)
{
    REQUIRE(m.nodeCount() == s.nodes.size(), "nodeCount() " << m.nodeCount() << " but " << s.nodes.size() << " nodes exist");
    REQUIRE(m.edgeCount() == s.edges.size(), "edgeCount() " << m.edgeCount() << " but " << s.edges.size() << " edges exist");
    std::set<int> seen;
    for(auto const &n : s.nodes)
    {
        GeoMap::NodePtr np = m.node(n.first);
        REQUIRE(np && np->label() == n.first && np->map() == &m && np->initialized(), "node " << n.first << " inconsistent");
        REQUIRE(n.first < m.maxNodeLabel(), "node label above maxNodeLabel");
        for(int d : n.second.orbit)
        {
            REQUIRE(seen.insert(d).second, "dart " << d << " in two sigma orbits");
            REQUIRE(s.edges.count(std::abs(d)), "sigma orbit of node " << n.first << " contains dart " << d << " of a removed edge");
            EEdge const &e = s.edges.at(std::abs(d));
            REQUIRE((d > 0 ? e.s : e.e) == n.first, "dart " << d << " is in the orbit of node " << n.first << " but starts at " << (d > 0 ? e.s : e.e));
            GeoMap::Dart dd = m.dart(d);
            REQUIRE(dd.startNodeLabel() == n.first, "Dart::startNodeLabel of " << d);
            REQUIRE(dd.clone().nextSigma().prevSigma().label() == d, "prevSigma is not the inverse of nextSigma at dart " << d);
            REQUIRE(dd.clone().nextAlpha().nextAlpha().label() == d, "alpha not an involution at " << d);
            REQUIRE(dd.clone().nextPhi().prevPhi().label() == d, "prevPhi is not the inverse of nextPhi at dart " << d);
            auto sg = em.sigma.find(d);
            REQUIRE(sg != em.sigma.end(), "dart " << d << " missing in the geometry");
            int ns = dd.clone().nextSigma().label();
            REQUIRE(ns == sg->second, "sigma successor of dart " << d << " is " << ns << ", but counter-clockwise next is " << sg->second);
        }
        unsigned deg = n.second.orbit.size();
        REQUIRE(np->degree() == deg, "degree() of node " << n.first);
        for(unsigned k = 0; k < deg + 3; ++k)
        {
            REQUIRE(np->hasDegree(k) == (deg == k), "hasDegree(" << k << ") of node " << n.first << " with degree " << deg);
            REQUIRE(np->hasMinDegree(k) == (deg >= k), "hasMinDegree(" << k << ") of node " << n.first << " with degree " << deg);
        }
        REQUIRE(n.second.isolated == (deg == 0), "isIsolated");
    }
    REQUIRE(seen.size() == 2 * s.edges.size(), "only " << seen.size() << " of " << 2*s.edges.size() << " darts are in sigma orbits");
    for(auto const &e : s.edges)
    {
        REQUIRE(s.nodes.count(e.second.s) && s.nodes.count(e.second.e), "edge " << e.first << " ends at a removed node");
        REQUIRE(e.second.pts.front() == s.nodes.at(e.second.s).pos, "edge " << e.first << " does not start at its start node");
        REQUIRE(e.second.pts.back() == s.nodes.at(e.second.e).pos, "edge " << e.first << " does not end at its end node");
        REQUIRE(m.edge(e.first)->label() == e.first && m.edge(e.first)->map() == &m, "edge " << e.first << " inconsistent");
        REQUIRE(m.edge(e.first)->isLoop() == (e.second.s == e.second.e), "isLoop of edge " << e.first);
    }
}

inline void checkFaces(GeoMap &m, Snap const &s, Embedding const &em)
{
    REQUIRE(m.faceCount() == s.faces.size(), "faceCount() " << m.faceCount() << " but " << s.faces.size() << " faces exist");
    REQUIRE(s.faces.count(0), "infinite face missing");
    auto left = [&](int d) { return d > 0 ? s.edges.at(d).l : s.edges.at(-d).r; };
    std::map<int, CellLabel> fl; fl[-1] = 0;
    std::set<CellLabel> labels; labels.insert(0);
    for(size_t k = 0; k < em.orbits.size(); ++k)
    {
        CellLabel l = left(em.orbits[k][0]);
        for(int d : em.orbits[k])
        {
            REQUIRE(left(d) == l, "darts " << em.orbits[k][0] << " and " << d << " of one contour have left faces " << l << " and " << left(d));
            REQUIRE(m.dart(d).leftFaceLabel() == l, "Dart::leftFaceLabel of " << d);
            REQUIRE(m.dart(-d).rightFaceLabel() == l, "Dart::rightFaceLabel of " << -d);
        }
        if(!em.exterior[k])
        {
            REQUIRE(l != 0, "interior contour of dart " << em.orbits[k][0] << " (area " << em.area[k] << ") belongs to the infinite face");
            REQUIRE(labels.insert(l).second, "two outer contours belong to face " << l);
            fl[k] = l;
        }
    }
    REQUIRE(labels.size() == s.faces.size(), "map has " << s.faces.size() << " faces, the plane is divided into " << labels.size());
    std::map<CellLabel, std::set<int> > holes;
    for(size_t k = 0; k < em.orbits.size(); ++k) if(em.exterior[k])
    {
        CellLabel l = left(em.orbits[k][0]), want = fl[em.parentOrbit[k]];
        REQUIRE(l == want, "exterior contour of dart " << em.orbits[k][0] << " is embedded in face " << l << " but lies in face " << want);
        holes[l].insert(k);
    }
    size_t nHoles = 0;
    for(auto const &f : s.faces)
    {
        GeoMap::FacePtr fp = m.face(f.first);
        REQUIRE(fp->label() == f.first && fp->map() == &m, "face " << f.first << " inconsistent");
        REQUIRE(labels.count(f.first), "face " << f.first << " has no contour in the plane");
        std::set<int> seen;
        for(size_t i = 0; i < f.second.anchors.size(); ++i)
        {
            int d = f.second.anchors[i];
            REQUIRE(em.orbitOf.count(d), "face " << f.first << " has anchor " << d << " of a removed edge");
            int k = em.orbitOf.at(d);
            REQUIRE(seen.insert(k).second, "face " << f.first << " has two anchors on one contour");
            REQUIRE(left(d) == f.first, "anchor " << d << " of face " << f.first << " has left face " << left(d));
            if(i == 0 && f.first) REQUIRE(!em.exterior[k], "first contour of face " << f.first << " is a hole contour");
            else REQUIRE(em.exterior[k], "hole contour " << i << " of face " << f.first << " is an outer contour");
        }
        size_t want = holes[f.first].size() + (f.first ? 1 : 0);
        REQUIRE(seen.size() == want, "face " << f.first << " has " << seen.size() << " contour anchors instead of " << want);
        REQUIRE(fp->holeCount() == holes[f.first].size(), "holeCount of face " << f.first);
        REQUIRE((size_t)std::distance(fp->holesBegin(), fp->contoursEnd()) == holes[f.first].size(), "hole range of face " << f.first);
        nHoles += holes[f.first].size();
    }
    for(auto const &e : s.edges)
        REQUIRE(m.edge(e.first)->isBridge() == (e.second.l == e.second.r), "isBridge of edge " << e.first);
    size_t iso = 0; for(auto const &n : s.nodes) iso += n.second.isolated;
    REQUIRE((long)s.nodes.size() - (long)iso - (long)s.edges.size() + (long)s.faces.size() - (long)nHoles == 1, "Euler-Poincare invariant");
}

inline void checkTopology(GeoMap &m, bool selfCheck = true)
{
    Snap s = snap(m);
    Embedding em(s);
    checkGraph(m, s, em);
    if(m.mapInitialized()) checkFaces(m, s, em);
    if(selfCheck) REQUIRE(m.checkConsistency(), "checkConsistency() reports an inconsistent map");
}

/********************************************************************/
// P02: derived geometry
inline double plen(Pts const &p) { double l = 0; for(size_t i = 1; i < p.size(); ++i) l += std::hypot(p[i].x-p[i-1].x, p[i].y-p[i-1].y); return l; }
inline double parea(Pts const &p) { double l = 0; for(size_t i = 1; i < p.size(); ++i) l += p[i].x*p[i-1].y-p[i].y*p[i-1].x; return l/2; }
inline bool near(double a, double b, double eps = 1e-6) { return std::fabs(a-b) <= eps * (1 + std::fabs(a) + std::fabs(b)); }

template<class BOX> inline void checkBox(BOX const &b, std::vector<Pts> const &ps, std::string const &what)
{
    double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300;
    for(auto const &p : ps) for(auto const &q : p) { x0 = std::min(x0,q.x); y0 = std::min(y0,q.y); x1 = std::max(x1,q.x); y1 = std::max(y1,q.y); }
    REQUIRE(near(b.begin()[0],x0) && near(b.begin()[1],y0) && near(b.end()[0],x1) && near(b.end()[1],y1),
            what << " is (" << b.begin()[0] << "," << b.begin()[1] << ")..(" << b.end()[0] << "," << b.end()[1] << ") instead of ("
            << x0 << "," << y0 << ")..(" << x1 << "," << y1 << ")");
}

inline bool sameScan(vigra::Scanlines const &a, vigra::Scanlines const &b)
{
    for(int y = std::min(a.startIndex(), b.startIndex()); y < std::max(a.endIndex(), b.endIndex()); ++y)
    {
        bool ia = y >= a.startIndex() && y < a.endIndex(), ib = y >= b.startIndex() && y < b.endIndex();
        unsigned na = ia ? a[y].size() : 0, nb = ib ? b[y].size() : 0;
        if(na != nb) return false;
        for(unsigned j = 0; j < na; ++j) if(!(a[y][j] == b[y][j])) return false;
    }
    return true;
}

// pixels covered by scanlines
inline std::set<std::pair<int,int> > scanPixels(vigra::Scanlines const &a)
{
    std::set<std::pair<int,int> > r;
    for(int y = a.startIndex(); y < a.endIndex(); ++y)
        for(unsigned j = 0; j < a[y].size(); ++j)
            for(int x = a[y][j].begin; x < a[y][j].end; ++x) r.insert(std::make_pair(x, y));
    return r;
}

inline void checkEdgeGeometry(GeoMap &m, CellLabel l, Pts const &p)
{
    GeoMap::EdgePtr e = m.edge(l);
    REQUIRE(near(e->length(), plen(p)), "length() of edge " << l << " is " << e->length() << " instead of " << plen(p));
    REQUIRE(near(e->partialArea(), parea(p)), "partialArea() of edge " << l << " is " << e->partialArea() << " instead of " << parea(p));
    checkBox(e->boundingBox(), std::vector<Pts>(1, p), "bounding box of edge");
    GeoMap::Dart d = m.dart(l), r = m.dart(-(int)l);
    REQUIRE(near(d.partialArea(), parea(p)) && near(r.partialArea(), -parea(p)), "Dart::partialArea of edge " << l);
    REQUIRE(d.size() == p.size() && r.size() == p.size(), "Dart::size of edge " << l);
    for(size_t i = 0; i < p.size(); ++i)
        REQUIRE(toP(d[i]) == p[i] && toP(r[p.size()-1-i]) == p[i], "dart point " << i << " of edge " << l);
    size_t i = 0;
    for(DartPointIter it = r.pointIter(); it.inRange(); ++it, ++i) REQUIRE(i < p.size() && toP(*it) == p[p.size()-1-i], "DartPointIter of dart " << r.label());
    REQUIRE(i == p.size(), "DartPointIter stops early");
}

inline void checkFaceGeometry(GeoMap &m, Snap const &s, CellLabel l)
{
    EFace const &f = s.faces.at(l);
    GeoMap::FacePtr fp = m.face(l);
    double area = 0; std::vector<Pts> outer;
    for(size_t i = 0; i < f.anchors.size(); ++i)
    {
        GeoMap::Dart d = m.dart(f.anchors[i]); int a0 = d.label();
        double a = 0, len = 0; Pts pts; std::vector<int> darts; int guard = 0;
        do {
            Pts p = s.edges.at(std::abs(d.label())).pts; if(d.label() < 0) std::reverse(p.begin(), p.end());
            a += parea(p); len += plen(p);
            for(size_t k = 1; k < p.size(); ++k) pts.push_back(p[k]);
            if(i == 0) outer.push_back(p);
            d.nextPhi();
            REQUIRE(++guard < 100000, "phi orbit does not close");
        } while(d.label() != a0);
        area += a;
        GeoMap::Dart an = m.dart(a0);
        REQUIRE(near(contourArea(an), a), "contourArea(" << a0 << ") is " << contourArea(an) << " instead of " << a);
        REQUIRE(near(contourLength(an), len), "contourLength(" << a0 << ") is " << contourLength(an) << " instead of " << len);
        if(a > 1e-9) REQUIRE(near(isoperimetricQuotient(an), len*len/(4*M_PI*a)), "isoperimetricQuotient(" << a0 << ")");
        size_t k = 0;
        for(ContourPointIter c(an); c.inRange(); ++c, ++k) REQUIRE(k < pts.size() && toP(*c) == pts[k], "ContourPointIter(" << a0 << ") point " << k);
        REQUIRE(k == pts.size(), "ContourPointIter(" << a0 << ") ends after " << k << " of " << pts.size() << " points");
        Vector2Polygon cp = contourPoly(an);
        REQUIRE(cp.closed(), "contourPoly(" << a0 << ") not closed");
        REQUIRE(near(cp.partialArea(), a), "contourPoly(" << a0 << ").partialArea() is " << cp.partialArea() << " instead of " << a);
        REQUIRE(cp.size() == pts.size() + 1, "contourPoly(" << a0 << ") has " << cp.size() << " points");
        for(k = 0; k < pts.size(); ++k) REQUIRE(toP(cp[k+1]) == pts[k], "contourPoly point " << k);
    }
    REQUIRE(near(fp->area(), area), "area() of face " << l << " is " << fp->area() << " instead of " << area);
    if(l)
    {
        checkBox(fp->boundingBox(), outer, "bounding box of face");
    }
}

inline void checkGeometry(GeoMap &m)
{
    Snap s = snap(m);
    for(auto const &e : s.edges)
    {
        checkEdgeGeometry(m, e.first, e.second.pts);
        Vector2Array fresh; for(auto const &p : e.second.pts) fresh.push_back(toV(p));
        Vector2Polygon fp(fresh);
        std::auto_ptr<vigra::Scanlines> want = scanPoly(fp);
        REQUIRE(scanPixels(*want) == scanPixels(m.edge(e.first)->scanLines()), "scanLines() of edge " << e.first << " do not match its geometry");
        REQUIRE(sameScan(*want, m.edge(e.first)->scanLines()), "scanLines() of edge " << e.first << " have wrong directions");
    }
    if(m.mapInitialized())
        for(auto const &f : s.faces) checkFaceGeometry(m, s, f.first);
}

/********************************************************************/
// P03: label image
// does segment ab intersect the open box of half width h around (cx,cy)?
inline bool segInBox(P a, P b, double cx, double cy, double h)
{
    double t0 = 0, t1 = 1;
    double d[2] = { b.x-a.x, b.y-a.y }, o[2] = { a.x-cx, a.y-cy };
    for(int k = 0; k < 2; ++k)
    {
        if(d[k] == 0) { if(!(o[k] > -h && o[k] < h)) return false; continue; }
        double u = (-h - o[k]) / d[k], v = (h - o[k]) / d[k];
        if(u > v) std::swap(u, v);
        t0 = std::max(t0, u); t1 = std::min(t1, v);
    }
    if(a == b) return true;
    return t0 < t1 - 1e-12 || (t0 <= t1 && (t0 == 0 || t1 == 1) && [&]{   // end point strictly inside?
        auto in = [&](P p) { return std::fabs(p.x-cx) < h && std::fabs(p.y-cy) < h; }; return in(a) || in(b); }());
}
inline bool polyInBox(Pts const &p, double cx, double cy, double h)
{
    for(size_t i = 1; i < p.size(); ++i) if(segInBox(p[i-1], p[i], cx, cy, h)) return true;
    return false;
}
inline bool axisParallel(Pts const &p)
{
    for(size_t i = 1; i < p.size(); ++i) if(p[i].x != p[i-1].x && p[i].y != p[i-1].y) return false;
    return true;
}

inline void checkLabelImage(GeoMap &m)
{
    REQUIRE(m.hasLabelImage(), "label image lost");
    Snap s = snap(m); Embedding em(s);
    std::map<int, CellLabel> ol = orbitLabels(em, s);
    int W = m.imageSize().x, H = m.imageSize().y;
    std::map<CellLabel, unsigned> px;
    REQUIRE((int)s.li.size() == W*H, "label image size");
    const double eps = 1e-7;
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x)
    {
        int l = s.li[y*W+x];
        int lo = 0, hi = 0;
        for(auto const &e : s.edges)
        {
            if(axisParallel(e.second.pts)) { bool t = polyInBox(e.second.pts, x, y, 0.5); lo += t; hi += t; }
            else { lo += polyInBox(e.second.pts, x, y, 0.5 - eps); hi += polyInBox(e.second.pts, x, y, 0.5 + eps); }
        }
        if(l < 0)
            REQUIRE(-l >= lo && -l <= hi, "pixel (" << x << "," << y << ") has label " << l << " but " << lo << ".." << hi << " edges cross it");
        else
        {
            REQUIRE(lo == 0, "pixel (" << x << "," << y << ") has face label " << l << " but " << lo << " edges cross it");
            CellLabel want = ol[em.locate(P(x, y))];
            REQUIRE((CellLabel)l == want, "pixel (" << x << "," << y << ") has label " << l << " but lies in face " << want);
            ++px[l];
        }
    }
    for(auto const &f : s.faces)
        REQUIRE(f.second.pixelArea == px[f.first], "pixelArea() of face " << f.first << " is " << f.second.pixelArea << " but it owns " << px[f.first] << " pixels");
}

} // namespace gm

#endif
