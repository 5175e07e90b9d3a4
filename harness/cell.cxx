// P23 pixel-based maps (cellimage): construction, P24 Euler operations, P25 pyramid
#include "pbt.hxx"
#include "foureightsegmentation.hxx"
#include "cellpyramid.hxx"
#include "statisticfunctor.hxx"
#include "cellstatistics.hxx"
#include <set>
#include <map>
#include <sstream>
#include <memory>

using namespace vigra;
using namespace vigra::cellimage;
typedef cellimage::GeoMap Map;
typedef Map::DartTraverser Dart;
typedef std::pair<int,int> Px;

struct Img { int W, H; std::vector<int> d; int &at(int x, int y) { return d[y*W+x]; } int at(int x, int y) const { return d[y*W+x]; }
    bool in(int x, int y) const { return x >= 0 && y >= 0 && x < W && y < H; } };
static std::string str(Img const &im)
{ std::ostringstream o; o << im.W << "x" << im.H << "\n"; for(int y = 0; y < im.H; ++y) { for(int x = 0; x < im.W; ++x) o << (im.at(x,y) ? '#' : '.'); o << "\n"; } return o.str(); }

static void line(Img &im, int x, int y, int x2, int y2)
{
    int n = std::max(std::abs(x2-x), std::abs(y2-y));
    for(int k = 0; k <= n; ++k)
    { int a = n ? x + (int)std::floor((double)(x2-x)*k/n + 0.5) : x, b = n ? y + (int)std::floor((double)(y2-y)*k/n + 0.5) : y; if(im.in(a,b)) im.at(a,b) = 1; }
}
static void rect(Img &im, int x, int y, int x2, int y2) { line(im,x,y,x2,y); line(im,x2,y,x2,y2); line(im,x2,y2,x,y2); line(im,x,y2,x,y); }
static void diamond(Img &im, int x, int y, int r) { line(im,x-r,y,x,y-r); line(im,x,y-r,x+r,y); line(im,x+r,y,x,y+r); line(im,x,y+r,x-r,y); }

// topology-preserving thinning: deletes contour pixels that are simple (8-connected foreground) and no line ends;
// the frame the map adds around the image counts as boundary
static bool framed(Img const &im, int x, int y)
{
    if(x < -1 || y < -1 || x > im.W || y > im.H) return false;
    return !im.in(x,y) || im.at(x,y);
}
static const int DX[8] = {1,1,0,-1,-1,-1,0,1}, DY[8] = {0,-1,-1,-1,0,1,1,1};
static bool simplePx(Img const &im, int x, int y)
{
    int v[8], cnt = 0;
    for(int k = 0; k < 8; ++k) { v[k] = framed(im, x+DX[k], y+DY[k]); cnt += v[k]; }
    if(cnt <= 1) return false;
    // number of 8-connected foreground components touching: Yokoi number for 8-connectivity
    int n = 0;
    for(int k = 0; k < 8; k += 2) { int c = 1-v[k], c1 = 1-v[(k+1)%8], c2 = 1-v[(k+2)%8]; n += c - c*c1*c2; }
    return n == 1;
}
static void thin(Img &im)
{
    for(bool ch = true; ch; )
    {
        ch = false;
        for(int y = 0; y < im.H; ++y) for(int x = 0; x < im.W; ++x)
            if(im.at(x,y) && simplePx(im, x, y)) { im.at(x,y) = 0; ch = true; }
    }
}
// true if pixels that may belong to one node (anything but a plain piece of line) enclose further boundaries
static bool nodeEnclosesBoundary(Img const &im, bool cornersAreNodes)
{
    int W = im.W+4, H = im.H+4; std::vector<int> f(W*H), c(W*H, 0);
    auto at = [&](int x, int y) { return y*W + x; };
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) f[at(x,y)] = framed(im, x-2, y-2);
    std::vector<char> v(W*H, 0);
    for(int y = 1; y+1 < H; ++y) for(int x = 1; x+1 < W; ++x)
    {
        if(!f[at(x,y)]) continue;
        std::vector<int> d; for(int k = 0; k < 8; ++k) if(f[at(x+DX[k],y+DY[k])]) d.push_back(k);
        bool plain = d.size() == 2;
        if(plain) { int a = (d[1]-d[0]+8)%8; a = std::min(a, 8-a); plain = cornersAreNodes ? a == 4 : a >= 2; }
        v[at(x,y)] = !plain;
    }
    v[at(1,1)] = 1;
    std::vector<char> done(W*H, 0);
    for(int s = 0; s < W*H; ++s)
    {
        if(!v[s] || done[s]) continue;
        std::vector<char> cl(W*H, 0); std::vector<int> st(1, s); cl[s] = done[s] = 1;
        while(st.size()) { int p = st.back(); st.pop_back(); for(int k = 0; k < 8; ++k) { int q = p + DY[k]*W + DX[k]; if(q >= 0 && q < W*H && v[q] && !cl[q]) { cl[q] = done[q] = 1; st.push_back(q); } } }
        std::vector<char> out(W*H, 0); st.assign(1, 0); out[0] = 1;
        while(st.size())
        {
            int p = st.back(); st.pop_back(); int x = p%W, y = p/W;
            for(int k = 0; k < 8; k += 2) { int a = x+DX[k], b = y+DY[k]; if(a < 0 || b < 0 || a >= W || b >= H) continue; int q = at(a,b); if(!cl[q] && !out[q]) { out[q] = 1; st.push_back(q); } }
        }
        for(int p = 0; p < W*H; ++p) if(!out[p] && !cl[p] && f[p]) return true;
        // several adjacent holes: the pixels between them may be an enclosed edge
        std::vector<int> hole(W*H, 0); int nh = 0;
        for(int p0 = 0; p0 < W*H; ++p0)
        {
            if(out[p0] || cl[p0] || hole[p0]) continue;
            hole[p0] = ++nh; st.assign(1, p0);
            while(st.size()) { int p = st.back(); st.pop_back(); for(int k = 0; k < 8; k += 2) { int q = p + DY[k]*W + DX[k]; if(!out[q] && !cl[q] && !hole[q]) { hole[q] = nh; st.push_back(q); } } }
        }
        for(int y = 1; y+1 < H; ++y) for(int x = 1; x+1 < W; ++x)
        {
            if(!cl[at(x,y)]) continue;
            std::set<int> hs; for(int k = 0; k < 8; ++k) hs.insert(hole[at(x+DX[k],y+DY[k])]);
            hs.erase(0); if(hs.size() > 1) return true;
        }
    }
    return false;
}
static Img genImg(pbt::Ctx &g, int maxS = 12)
{
    Img im; int lo = g.p(2,3) ? maxS/2 : 1; im.W = g.i(lo, maxS); im.H = g.i(lo, maxS);
    if(g.p(1,40)) { im.W = g.i(1, 5); im.H = g.i(257, 280); if(g.u(2)) std::swap(im.W, im.H); g.classify("image with more than 256 rows or columns"); }
    im.d.assign(im.W*im.H, 0);
    int kind = g.u(6);
    if(kind == 0)
    {   // noise
        int den = g.i(2, 8); for(auto &v : im.d) v = g.u(den) == (uint32_t)den-1;
    }
    else if(kind == 1)
    {   // boundaries of a region image on the doubled grid
        int w = (im.W+1)/2, h = (im.H+1)/2; std::vector<int> l(w*h); int n = g.i(2,4);
        for(auto &v : l) v = g.u(n);
        for(int y = 0; y < im.H; ++y) for(int x = 0; x < im.W; ++x)
        {
            auto L = [&](int a, int b) { return l[std::min(b,h-1)*w + std::min(a,w-1)]; };
            int a = x/2, b = y/2; bool e = false;
            if(x%2 && !(y%2)) e = L(a,b) != L(a+1,b);
            else if(!(x%2) && y%2) e = L(a,b) != L(a,b+1);
            else if(x%2 && y%2) e = L(a,b) != L(a+1,b) || L(a,b) != L(a,b+1) || L(a,b) != L(a+1,b+1);
            im.at(x,y) = e;
        }
    }
    else
    {   // shapes
        int n = g.i(1, 5);
        for(int k = 0; k < n; ++k)
        {
            int x = g.u(im.W), y = g.u(im.H), s = g.u(4);
            if(s == 0) { int x2 = g.u(im.W); line(im, x, y, x2, g.u(im.H)); }
            else if(s == 1) { int x2 = g.u(im.W); rect(im, x, y, x2, g.u(im.H)); }
            else if(s == 2) diamond(im, x, y, 1 + g.u(5));
            else im.at(x,y) = 1;
        }
    }
    thin(im);
    return im;
}

static std::shared_ptr<Map> build(Img const &im, CellType corner, bool invert)
{
    IImage s(im.W, im.H); for(int y = 0; y < im.H; ++y) for(int x = 0; x < im.W; ++x) s(x,y) = im.at(x,y) ? (invert ? 0 : 7) : (invert ? 1 + (x+y)%3 : (x%3));
    return std::shared_ptr<Map>(new Map(srcImageRange(s), invert ? 0 : 7, corner));
}

// ------------------------------------------------------------------ invariants
struct DK { int x, y, d; bool operator<(DK const &o) const { return x != o.x ? x < o.x : y != o.y ? y < o.y : d < o.d; } bool operator==(DK const &o) const { return x==o.x&&y==o.y&&d==o.d; } };
static DK key(Dart const &d) { DK k; Diff2D c = d.centerCoordinate(); k.x = c.x; k.y = c.y; k.d = d.direction(); return k; }
static CellPixel px(Map const &m, int x, int y) { return m.cellImage(x+2, y+2); }

struct State   // full observable state
{
    std::map<CellLabel, std::set<Px> > n, e, f;
    std::map<CellLabel, int> deg;
    std::map<CellLabel, std::pair<CellLabel,CellLabel> > ends, sides;
    std::map<CellLabel, std::size_t> nContours;
    bool operator==(State const &o) const { return n == o.n && e == o.e && f == o.f && deg == o.deg && ends == o.ends && sides == o.sides && nContours == o.nContours; }
};
static State state(Map const &m)
{
    State s; int W = m.cellImage.width(), H = m.cellImage.height();
    for(int y = -2; y < H-2; ++y) for(int x = -2; x < W-2; ++x)
    {
        CellPixel p = px(m, x, y);
        if(p.type() == CellTypeVertex) s.n[p.label()].insert(Px(x,y));
        else if(p.type() == CellTypeLine) s.e[p.label()].insert(Px(x,y));
        else if(p.type() == CellTypeRegion) s.f[p.label()].insert(Px(x,y));
        else REQUIRE(false, "pixel (" << x << "," << y << ") has no valid type");
    }
    for(Map::ConstNodeIterator it = m.nodesBegin(); it.inRange(); ++it) s.deg[it->label] = it->degree;
    for(Map::ConstEdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
    {
        CellLabel a = it->start.startNodeLabel(), b = it->end.startNodeLabel(), l = it->start.leftFaceLabel(), r = it->start.rightFaceLabel();
        s.ends[it->label] = std::make_pair(std::min(a,b), std::max(a,b)); s.sides[it->label] = std::make_pair(std::min(l,r), std::max(l,r));
    }
    for(Map::ConstFaceIterator it = m.facesBegin(); it.inRange(); ++it) s.nContours[it->label] = it->contours.size();
    return s;
}

template<class INFO> static void checkInfo(INFO const &c, std::set<Px> const &px, std::string const &what, bool size = true)
{
    REQUIRE(!px.empty(), what << " has no pixels");
    int x0 = 1<<20, y0 = 1<<20, x1 = -(1<<20), y1 = -(1<<20);
    for(auto const &p : px) { x0 = std::min(x0, p.first); x1 = std::max(x1, p.first); y0 = std::min(y0, p.second); y1 = std::max(y1, p.second); }
    if(size) REQUIRE(c.size == px.size(), what << " has size " << c.size << " instead of " << px.size());
    REQUIRE(c.bounds.left() == x0 && c.bounds.top() == y0 && c.bounds.right() == x1+1 && c.bounds.bottom() == y1+1,
            what << " has bounds " << c.bounds << " instead of " << x0 << "," << y0 << ".." << x1+1 << "," << y1+1);
}
template<class IT> static std::set<Px> scan(IT it, std::string const &what)
{
    std::set<Px> r;
    for(; it.inRange(); ++it) { Point2D p(*it); REQUIRE(r.insert(Px(p.x,p.y)).second, what << ": scan iterator visits a pixel twice"); }
    return r;
}
static std::set<Px> crop(std::set<Px> const &s, int W, int H)
{ std::set<Px> r; for(auto const &p : s) if(p.first >= 0 && p.second >= 0 && p.first < W && p.second < H) r.insert(p); return r; }

static void checkMap(Map const &cm, bool fresh)
{
    Map &m(const_cast<Map &>(cm));
    State s = state(m);
    int W = m.cellImage.width()-4, H = m.cellImage.height()-4;
    unsigned n = 0, e = 0, f = 0;
    for(Map::NodeIterator it = m.nodesBegin(); it.inRange(); ++it, ++n)
    {
        REQUIRE(s.n.count(it->label), "node " << it->label << " has no pixels");
        std::ostringstream w; w << "node " << it->label;
        checkInfo(*it, s.n[it->label], w.str());
        REQUIRE(scan(m.nodeScanIterator(it->label, Point2D(0,0), false), w.str()) == s.n[it->label], w.str() << ": scan iterator misses pixels");
        REQUIRE(scan(m.nodeScanIterator(it->label, Point2D(0,0), true), w.str()) == crop(s.n[it->label], W, H), w.str() << ": cropped scan iterator");
        REQUIRE(&m.node(it->label) == &*it && m.findNode(it->label)->label == it->label, w.str() << ": node access by label");
    }
    for(Map::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it, ++e)
    {
        REQUIRE(s.e.count(it->label), "edge " << it->label << " has no pixels");
        std::ostringstream w; w << "edge " << it->label;
        checkInfo(*it, s.e[it->label], w.str());
        REQUIRE(scan(m.edgeScanIterator(it->label, Point2D(0,0), false), w.str()) == s.e[it->label], w.str() << ": scan iterator misses pixels");
        REQUIRE(scan(m.edgeScanIterator(it->label, Point2D(0,0), true), w.str()) == crop(s.e[it->label], W, H), w.str() << ": cropped scan iterator");
    }
    for(Map::FaceIterator it = m.facesBegin(); it.inRange(); ++it, ++f)
    {
        REQUIRE(s.f.count(it->label), "face " << it->label << " has no pixels");
        std::ostringstream w; w << "face " << it->label;
        checkInfo(*it, s.f[it->label], w.str(), it->label != 0);
        REQUIRE(scan(m.faceScanIterator(it->label, Point2D(0,0), false), w.str()) == s.f[it->label], w.str() << ": scan iterator misses pixels");
        REQUIRE(scan(m.faceScanIterator(it->label, Point2D(0,0), true), w.str()) == crop(s.f[it->label], W, H), w.str() << ": cropped scan iterator");
    }
    REQUIRE(n == m.nodeCount() && e == m.edgeCount() && f == m.faceCount(), "cell counts " << m.nodeCount() << "/" << m.edgeCount() << "/" << m.faceCount() << " instead of " << n << "/" << e << "/" << f);
    REQUIRE(n == s.n.size() && e == s.e.size() && f == s.f.size(), "the cell image contains " << s.n.size() << "/" << s.e.size() << "/" << s.f.size() << " cells, the map has " << n << "/" << e << "/" << f);
    REQUIRE(m.face(0).initialized(), "no infinite face");
    // darts
    std::map<DK, Dart> darts; std::map<CellLabel, int> uses; std::map<CellLabel, CellLabel> isolated;
    std::map<CellLabel, CellLabel> uf; std::function<CellLabel(CellLabel)> find = [&](CellLabel x) { while(uf[x] != x) x = uf[x]; return x; };
    for(Map::NodeIterator it = m.nodesBegin(); it.inRange(); ++it) uf[it->label] = it->label;
    for(Map::NodeIterator it = m.nodesBegin(); it.inRange(); ++it)
    {
        Dart a(it->anchor);
        REQUIRE(a.startNodeLabel() == it->label && a.neighborCirculator().center()->type() == CellTypeVertex, "anchor of node " << it->label << " starts at node " << a.startNodeLabel());
        if(it->degree == 0) { REQUIRE(a.isSingular(), "node " << it->label << " has degree 0 but is not isolated"); isolated[it->label] = a.leftFaceLabel(); continue; }
        REQUIRE(!a.isSingular(), "anchor of node " << it->label << " (degree " << it->degree << ") is singular");
        Dart d(a); int deg = 0;
        do
        {
            REQUIRE(d.startNodeLabel() == it->label, "sigma orbit of node " << it->label << " leaves the node");
            REQUIRE(darts.insert(std::make_pair(key(d), d)).second, "sigma orbit of node " << it->label << " is not cyclic");
            Dart q(d); q.nextSigma(); q.prevSigma(); REQUIRE(q == d, "prevSigma is not the inverse of nextSigma at node " << it->label);
            REQUIRE(m.edge(d.edgeLabel()).initialized(), "dart of removed edge " << d.edgeLabel());
            ++uses[d.edgeLabel()];
            REQUIRE(++deg <= 1000, "endless sigma orbit");
            d.nextSigma();
        } while(!(key(d) == key(a)));
        REQUIRE(deg == it->degree, "node " << it->label << " has degree " << it->degree << " but " << deg << " darts");
    }
    REQUIRE(uses.size() == e, "darts of " << uses.size() << " edges found, map has " << e);
    for(auto const &u : uses) REQUIRE(u.second == 2, "edge " << u.first << " has " << u.second << " darts");
    for(Map::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
    {
        REQUIRE(darts.count(key(it->start)) && darts.count(key(it->end)) && !(key(it->start) == key(it->end)), "start/end of edge " << it->label << " are not its darts");
        REQUIRE(it->start.edgeLabel() == it->label && it->end.edgeLabel() == it->label, "start/end of edge " << it->label << " belong to another edge");
        Dart d(it->start); d.nextAlpha(); REQUIRE(key(d) == key(it->end), "alpha of the start of edge " << it->label);
        d.nextAlpha(); REQUIRE(key(d) == key(it->start), "alpha is not an involution for edge " << it->label);
        REQUIRE(it->start.leftFaceLabel() == it->end.rightFaceLabel() && it->start.rightFaceLabel() == it->end.leftFaceLabel(),
                "faces at the two ends of edge " << it->label << " differ: " << it->start.leftFaceLabel() << "|" << it->start.rightFaceLabel() << " vs. " << it->end.rightFaceLabel() << "|" << it->end.leftFaceLabel());
        REQUIRE(it->start.endNodeLabel() == it->end.startNodeLabel(), "end node of edge " << it->label);
        REQUIRE(it->isLoop() == (it->start.startNodeLabel() == it->end.startNodeLabel()) && it->isBridge() == (it->start.leftFaceLabel() == it->start.rightFaceLabel()), "isLoop/isBridge of edge " << it->label);
        uf[find(it->start.startNodeLabel())] = find(it->end.startNodeLabel());
    }
    // contours: every phi orbit is listed once by its face, every isolated node once by its face
    std::set<DK> seen; std::set<CellLabel> iso; unsigned nc = 0;
    for(Map::FaceIterator it = m.facesBegin(); it.inRange(); ++it)
        for(unsigned k = 0; k < it->contours.size(); ++k)
        {
            ++nc;
            Dart a(it->contours[k]);
            REQUIRE(a.neighborCirculator().center()->type() == CellTypeVertex && m.node(a.startNodeLabel()).initialized(), "contour " << k << " of face " << it->label << " does not start at a node");
            if(a.isSingular())
            {
                REQUIRE(isolated.count(a.startNodeLabel()), "contour " << k << " of face " << it->label << " is singular, but its node is not isolated");
                REQUIRE(isolated[a.startNodeLabel()] == it->label, "isolated node " << a.startNodeLabel() << " listed in face " << it->label << " but lies in " << isolated[a.startNodeLabel()]);
                REQUIRE(iso.insert(a.startNodeLabel()).second, "isolated node listed twice");
                continue;
            }
            Dart d(a); int c = 0;
            do
            {
                REQUIRE(darts.count(key(d)), "contour of face " << it->label << " contains an unknown dart");
                REQUIRE(d.leftFaceLabel() == it->label, "contour of face " << it->label << " contains a dart whose left face is " << d.leftFaceLabel());
                REQUIRE(seen.insert(key(d)).second, "dart is listed twice in contours (face " << it->label << ")");
                Dart q(d); q.nextPhi(); q.prevPhi(); REQUIRE(q == d, "prevPhi is not the inverse of nextPhi");
                REQUIRE(++c < 5000, "endless contour");
                d.nextPhi();
            } while(!(key(d) == key(a)));
        }
    REQUIRE(seen.size() == darts.size(), seen.size() << " of " << darts.size() << " darts are in contours of faces");
    REQUIRE(iso.size() == isolated.size(), iso.size() << " of " << isolated.size() << " isolated nodes are in contours");
    std::set<CellLabel> roots; for(auto const &u : uf) roots.insert(find(u.first));
    REQUIRE((int)n - (int)e + (int)f == 1 + (int)roots.size(), "Euler's formula violated: " << n << " nodes, " << e << " edges, " << f << " faces, " << roots.size() << " components");
    REQUIRE(nc == f - 1 + roots.size(), nc << " contours for " << f << " faces and " << roots.size() << " components");
    if(fresh)
    {   // 8-connected components of the boundary pixels = components of the graph
        std::set<Px> b; for(auto const *q : {&s.n, &s.e}) for(auto const &c : *q) b.insert(c.second.begin(), c.second.end());
        unsigned comps = 0; std::set<Px> todo(b);
        while(todo.size())
        {
            ++comps; std::vector<Px> st(1, *todo.begin()); todo.erase(todo.begin());
            while(st.size()) { Px p = st.back(); st.pop_back(); for(int dy = -1; dy <= 1; ++dy) for(int dx = -1; dx <= 1; ++dx) { auto i = todo.find(Px(p.first+dx, p.second+dy)); if(i != todo.end()) { st.push_back(*i); todo.erase(i); } } }
        }
        REQUIRE(comps == roots.size(), comps << " connected boundaries but " << roots.size() << " components of the map");
    }
}

static std::shared_ptr<Map> genMap(pbt::Ctx &g, Img &im, bool retry = true)
{
    im = genImg(g);
    CellType corner = g.p(1,3) ? CellTypeVertex : CellTypeLine;
    bool inv = g.u(2);
    if(nodeEnclosesBoundary(im, corner == CellTypeVertex)) { g.classify("discarded: a node may enclose boundaries"); throw pbt::Discard(); }
    g.text << str(im) << (corner == CellTypeVertex ? "corners are nodes\n" : "corners are edge pixels\n");
    try { return build(im, corner, inv); }
    catch(vigra::ContractViolation &e)
    {
        REQUIRE(std::string(e.what()).find("must be thinned further") != std::string::npos, "construction failed: " << e.what());
        g.classify("refused: must be thinned further");
        throw pbt::Discard();
    }
}

static void same(State const &a, State const &b, std::string const &what)
{
    auto cells = [&](std::map<CellLabel, std::set<Px> > const &x, std::map<CellLabel, std::set<Px> > const &y, char const *n)
    {
        for(auto const &c : y) REQUIRE(x.count(c.first), what << ": " << n << " " << c.first << " vanished");
        for(auto const &c : x) { REQUIRE(y.count(c.first), what << ": unexpected " << n << " " << c.first); REQUIRE(c.second == y.at(c.first), what << ": pixels of " << n << " " << c.first << " (" << c.second.size() << " instead of " << y.at(c.first).size() << ")"); }
    };
    cells(a.n, b.n, "node"); cells(a.e, b.e, "edge"); cells(a.f, b.f, "face");
    REQUIRE(a.deg == b.deg, what << ": node degrees differ");
    REQUIRE(a.ends == b.ends, what << ": end nodes of edges differ");
    for(auto const &c : a.sides) REQUIRE(c.second == b.sides.at(c.first), what << ": faces of edge " << c.first << " are " << c.second.first << "|" << c.second.second << " instead of " << b.sides.at(c.first).first << "|" << b.sides.at(c.first).second);
    REQUIRE(a.nContours == b.nContours, what << ": numbers of contours differ");
    REQUIRE(a == b, what);
}

PROP(P23, "at least 3 faces or 4 edges")
{
    Img im; std::shared_ptr<Map> m = genMap(g, im);
    // boundary pixels (and a frame) are nodes or edges, others are faces; holes enclosed by a node are filled
    std::vector<int> comp((im.W+4)*(im.H+4), -1);
    auto raw = [&](int x, int y) { return x == -1 || y == -1 || x == im.W || y == im.H ? (x >= -1 && y >= -1 && x <= im.W && y <= im.H) : (im.in(x,y) ? im.at(x,y) != 0 : false); };
    std::map<CellLabel, int> c2; int nc = 0; std::set<int> used;
    auto idx = [&](int x, int y) { return (y+2)*(im.W+4) + x+2; };
    for(int y = -2; y < im.H+2; ++y) for(int x = -2; x < im.W+2; ++x)
    {
        if(raw(x,y) || comp[idx(x,y)] >= 0) continue;
        std::vector<Px> st(1, Px(x,y)); comp[idx(x,y)] = nc; bool border = false;
        std::set<CellType> around; std::set<CellLabel> lab; std::set<Px> all;
        while(st.size())
        {
            Px p = st.back(); st.pop_back(); all.insert(p);
            for(auto q : {Px(p.first+1,p.second), Px(p.first-1,p.second), Px(p.first,p.second+1), Px(p.first,p.second-1)})
                if(q.first >= -2 && q.second >= -2 && q.first < im.W+2 && q.second < im.H+2)
                {
                    if(raw(q.first, q.second)) continue;
                    if(comp[idx(q.first,q.second)] < 0) { comp[idx(q.first,q.second)] = nc; st.push_back(q); }
                }
        }
        (void)border; ++nc;
        CellPixel p0 = px(*m, x, y);
        for(auto const &q : all) REQUIRE(px(*m, q.first, q.second) == p0, "connected region at (" << x << "," << y << ") belongs to several cells");
        if(p0.type() == CellTypeRegion)
        {
            REQUIRE(!c2.count(p0.label()), "face " << p0.label() << " consists of several regions");
            c2[p0.label()] = nc;
            REQUIRE((p0.label() == 0) == (x == -2 && y == -2), "face 0 is not the outside");
        }
        else
        {
            REQUIRE(p0.type() == CellTypeVertex, "region at (" << x << "," << y << ") became part of an edge");
            // entirely enclosed by that node
            for(auto const &q : all) for(int dy = -1; dy <= 1; ++dy) for(int dx = -1; dx <= 1; ++dx) if(dx == 0 || dy == 0) REQUIRE(px(*m, q.first+dx, q.second+dy) == p0, "region at (" << x << "," << y << ") became part of a node that does not enclose it");
            g.classify("hole within a node");
        }
    }
    for(int y = -1; y <= im.H; ++y) for(int x = -1; x <= im.W; ++x)
        if(raw(x,y)) REQUIRE(px(*m, x, y).type() != CellTypeRegion, "boundary pixel (" << x << "," << y << ") became part of a face");
    checkMap(*m, true);
    Map imported(m->cellImage); same(state(imported), state(*m), "map imported from the cell image"); checkMap(imported, true);
    g.classify("holes", [&]{ for(Map::FaceIterator it = m->facesBegin(); it.inRange(); ++it) if(it->label && it->contours.size() > 1) return true; return false; }());
    g.nontrivial(m->faceCount() >= 3 || m->edgeCount() >= 4);
}


// ------------------------------------------------------------------ P24: Euler operations
static std::vector<Dart> allDarts(Map &m)
{
    std::vector<Dart> r;
    for(Map::NodeIterator it = m.nodesBegin(); it.inRange(); ++it)
    {
        Dart d(it->anchor); if(d.isSingular()) { r.push_back(d); continue; }
        unsigned guard = 0;
        do { r.push_back(d); REQUIRE(++guard < 1000, "endless sigma orbit"); } while(d.nextSigma() != it->anchor);
    }
    return r;
}
enum OpK { RemoveIso, MergeF, RemoveBr, MergeE };
static char const *opName[] = { "removeIsolatedNode", "mergeFaces", "removeBridge", "mergeEdges" };
static bool legal(OpK k, Dart const &d)
{
    switch(k)
    {
      case RemoveIso: return d.isSingular();
      case MergeF: return !d.isSingular() && d.leftFaceLabel() != d.rightFaceLabel();
      case RemoveBr: return !d.isSingular() && d.leftFaceLabel() == d.rightFaceLabel();
      default:
        if(d.isSingular()) return false;
        { Dart q(d); q.nextSigma(); if(q == d || q.edgeLabel() == d.edgeLabel()) return false; q.nextSigma(); return q == d; }
    }
}
static void swapIn(std::pair<CellLabel,CellLabel> &p, CellLabel from, CellLabel to)
{ if(p.first == from) p.first = to; if(p.second == from) p.second = to; if(p.first > p.second) std::swap(p.first, p.second); }
// the state after the operation; `res` is the label of the returned cell
static State expected(State s, OpK k, CellLabel node, CellLabel edge, CellLabel node2, CellLabel l, CellLabel r, CellLabel edge2, CellLabel res)
{
    auto give = [](std::set<Px> &from, std::set<Px> &to) { to.insert(from.begin(), from.end()); };
    if(k == RemoveIso)
    {
        REQUIRE(res == l, "removeIsolatedNode returned face " << res << " instead of " << l);
        give(s.n[node], s.f[l]); s.n.erase(node); s.deg.erase(node); --s.nContours[l];
    }
    else if(k == MergeF)
    {
        REQUIRE(res == l || res == r, "mergeFaces returned face " << res << " after merging " << l << " and " << r);
        CellLabel o = res == l ? r : l; REQUIRE(o != 0, "mergeFaces removed the infinite face");
        give(s.e[edge], s.f[res]); give(s.f[o], s.f[res]); s.f.erase(o); s.e.erase(edge);
        --s.deg[node]; --s.deg[node2]; s.ends.erase(edge); s.sides.erase(edge);
        for(auto &q : s.sides) swapIn(q.second, o, res);
        s.nContours[res] += s.nContours[o] - 1; s.nContours.erase(o);
    }
    else if(k == RemoveBr)
    {
        REQUIRE(res == l, "removeBridge returned face " << res << " instead of " << l);
        give(s.e[edge], s.f[l]); s.e.erase(edge); --s.deg[node]; --s.deg[node2]; s.ends.erase(edge); s.sides.erase(edge); ++s.nContours[l];
    }
    else
    {
        REQUIRE(res == edge || res == edge2, "mergeEdges returned edge " << res << " after merging " << edge << " and " << edge2);
        CellLabel o = res == edge ? edge2 : edge;
        give(s.e[o], s.e[res]); give(s.n[node], s.e[res]); s.e.erase(o); s.n.erase(node); s.deg.erase(node);
        auto other = [&](CellLabel e) { auto p = s.ends[e]; return p.first == node ? p.second : p.first; };
        CellLabel a = other(edge), b = other(edge2);
        s.ends.erase(o); s.ends[res] = std::make_pair(std::min(a,b), std::max(a,b)); s.sides.erase(o);
    }
    return s;
}
struct Call { OpK k; Dart d; CellLabel node, edge, node2, l, r, edge2;
    Call(OpK k_, Dart const &d_) : k(k_), d(d_), node(d.startNodeLabel()), edge(0), node2(0), l(d.leftFaceLabel()), r(d.rightFaceLabel()), edge2(0)
    { if(!d.isSingular()) { edge = d.edgeLabel(); node2 = d.endNodeLabel(); Dart q(d); q.nextSigma(); edge2 = q.edgeLabel(); } else { l = r = d.edgeLabel(); } } };
static CellLabel perform(Map &m, OpK k, Dart const &d)
{
    switch(k)
    {
      case RemoveIso: return m.removeIsolatedNode(d).label;
      case MergeF: return m.mergeFaces(d).label;
      case RemoveBr: return m.removeBridge(d).label;
      default: return m.mergeEdges(d).label;
    }
}
static OpK pickOp(pbt::Ctx &g, Dart const &d)
{
    if(g.p(1,8)) return (OpK)g.u(4);
    std::vector<OpK> l; for(int k = 0; k < 4; ++k) if(legal((OpK)k, d)) l.push_back((OpK)k);
    return l.empty() ? MergeE : g.pick(l);
}

PROP(P24, "at least 4 successful operations of at least 2 kinds")
{
    Img im; std::shared_ptr<Map> m = genMap(g, im), other; State otherState;
    int n = g.i(1, g.p(1,3) ? 60 : 20); std::set<int> kinds; int done = 0;
    State s = state(*m);
    for(int k = 0; k < n; ++k)
    {
        if(g.p(1,12))
        {   // continue with a copy; the original must stay as it is
            other = m; otherState = s;
            if(g.u(2)) m.reset(new Map(*other));
            else { Img i2; i2.W = g.i(1,5); i2.H = g.i(1,5); i2.d.assign(i2.W*i2.H, 0); m = build(i2, CellTypeLine, false); *m = *other; }
            g.text << "copy\n"; same(state(*m), s, "copy");
        }
        std::vector<Dart> ds = allDarts(*m); if(ds.empty()) { g.classify("emptied"); break; } Dart d = ds[g.u(ds.size())];
        OpK op = pickOp(g, d); Call c(op, d); bool ok = legal(op, d);
        g.text << opName[op] << "(" << d << ")" << (ok ? "" : " (must be refused)") << "\n";
        CellLabel res = 0; bool thrown = false;
        try { res = perform(*m, op, d); } catch(vigra::ContractViolation &e) { thrown = true; if(ok) throw pbt::Fail(std::string("legal operation failed: ") + e.what()); }
        REQUIRE(thrown == !ok, "illegal operation was accepted");
        State s2 = state(*m);
        if(ok) { same(s2, expected(s, op, c.node, c.edge, c.node2, c.l, c.r, c.edge2, res), opName[op]); ++done; kinds.insert(op); g.classify(opName[op]); }
        else same(s2, s, "refused operation");
        s = s2;
        checkMap(*m, false);
        if(other && g.p(1,4)) same(state(*other), otherState, "original after modifying the copy");
    }
    if(other) { same(state(*other), otherState, "original after modifying the copy"); checkMap(*other, false); g.classify("copied"); }
    g.nontrivial(done >= 4 && kinds.size() >= 2);
}


// ------------------------------------------------------------------ P25: pyramid
struct Rec   // statistics object that records the operations it was told about
{
    struct Ev { int k; CellLabel node, edge, l, r, res; bool operator==(Ev const &o) const { return k == o.k && node == o.node && edge == o.edge && l == o.l && r == o.r && res == o.res; } };
    std::vector<Ev> ev; Ev cur;
    void pre(int k, Dart const &d) { Call c((OpK)k, d); cur.k = k; cur.node = c.node; cur.edge = c.edge; cur.l = std::min(c.l, c.r); cur.r = std::max(c.l, c.r); }
    void post(int k, CellLabel r) { REQUIRE(cur.k == k, "post hook " << k << " without its pre hook"); cur.res = r; ev.push_back(cur); cur.k = -1; }
    void preRemoveIsolatedNode(Dart const &d) { pre(RemoveIso, d); }
    void postRemoveIsolatedNode(Map::FaceInfo &f) { post(RemoveIso, f.label); }
    void preMergeFaces(Dart const &d) { pre(MergeF, d); }
    void postMergeFaces(Map::FaceInfo &f) { post(MergeF, f.label); }
    void preRemoveBridge(Dart const &d) { pre(RemoveBr, d); }
    void postRemoveBridge(Map::FaceInfo &f) { post(RemoveBr, f.label); }
    void preMergeEdges(Dart const &d) { pre(MergeE, d); }
    void postMergeEdges(Map::EdgeInfo &e) { post(MergeE, e.label); }
    Rec() { cur.k = -1; }
};
typedef CellPyramid<Map, Rec> Pyr;
struct Snap { State s; std::vector<Rec::Ev> ev; };

PROP(P25, "at least 4 levels and a level below the top was reconstructed")
{
    Img im; std::shared_ptr<Map> m = genMap(g, im);
    struct Quiet { std::streambuf *b; std::ostringstream o; Quiet() { b = std::cerr.rdbuf(o.rdbuf()); } ~Quiet() { std::cerr.rdbuf(b); } } quiet;
    Pyr p(*m); std::vector<Snap> levels(1); levels[0].s = state(*m);
    Snap top = levels[0];      // expected current state (may be within a composite)
    int composing = 0; bool empty = false;  // the open composite has performed nothing
    std::unique_ptr<Pyr::Level> lv; bool below = false;
    int n = g.i(1, g.p(1,2) ? 60 : 20);
    auto checkLevel = [&](Pyr::Level const &l, Snap const &e, unsigned idx, std::string const &what)
    {
        REQUIRE(l.index() == idx, what << ": level index " << l.index() << " instead of " << idx);
        same(state(l.segmentation()), e.s, what);
        REQUIRE(l.cellStatistics().ev == e.ev, what << ": the statistics saw " << l.cellStatistics().ev.size() << " operations, expected " << e.ev.size());
        checkMap(l.segmentation(), false);
    };
    auto commit = [&]{ levels.push_back(top); };
    for(int k = 0; k < n; ++k)
    {
        int a = g.u(20);
        if(a < 13)
        {
            Map &sm(const_cast<Map &>(p.topLevel().segmentation()));
            std::vector<Dart> ds = allDarts(sm); if(ds.empty()) { g.classify("emptied"); break; }
            Dart d = ds[g.u(ds.size())];
            int comp = g.u(4); bool ok, thrown = false; Snap e = top; CellLabel res = 0, got = 0;
            auto ev = [&](OpK op, Dart const &d, CellLabel res) { Call c(op, d); Rec::Ev v; v.k = op; v.node = c.node; v.edge = c.edge; v.l = std::min(c.l,c.r); v.r = std::max(c.l,c.r); v.res = res; e.ev.push_back(v); };
            if(comp < 2)
            {
                OpK op = pickOp(g, d); ok = legal(op, d); Call c(op, d);
                g.text << opName[op] << "(" << d << ")" << (ok ? "" : " (must be refused)") << "\n";
                Map ref(sm); Dart rd(d); rd.reparent(&ref);
                if(ok) { Dart d0(d); res = perform(ref, op, rd); ev(op, d0, res); e.s = state(ref); }
                try
                {
                    switch(op) { case RemoveIso: got = p.removeIsolatedNode(d).label; break; case MergeF: got = p.mergeFaces(d).label; break;
                      case RemoveBr: got = p.removeBridge(d).label; break; default: got = p.mergeEdges(d).label; }
                }
                catch(vigra::ContractViolation &x) { thrown = true; if(ok) throw pbt::Fail(std::string("legal operation failed: ") + x.what());
                    REQUIRE(std::string(x.what()).find("cutAbove") == std::string::npos, "refused operation raised " << x.what()); }
                g.classify("refused operation", !ok);
            }
            else
            {   // removeEdge / removeEdgeWithEnds
                if(d.isSingular()) continue;
                ok = true; bool ends = comp == 3; Map ref(sm); Dart rd(d); rd.reparent(&ref);
                g.text << (ends ? "removeEdgeWithEnds(" : "removeEdge(") << d << ")\n";
                Map::NodeInfo &n1 = rd.edge().start.startNode(), &n2 = rd.edge().end.startNode();
                OpK op = rd.leftFaceLabel() == rd.rightFaceLabel() ? RemoveBr : MergeF;
                { Dart d0(rd); Call c(op, d0); Rec::Ev v; v.k = op; v.node = c.node; v.edge = c.edge; v.l = std::min(c.l,c.r); v.r = std::max(c.l,c.r); res = v.res = perform(ref, op, rd); e.ev.push_back(v); }
                if(ends)
                {
                    bool two = n1.label != n2.label;
                    for(int w = 0; w < (two ? 2 : 1); ++w)
                        if(Map::NodeInfo *n = (w ? n2 : n1).degree == 0 ? &(w ? n2 : n1) : 0) { Dart a(n->anchor); Call c(RemoveIso, a); Rec::Ev v; v.k = RemoveIso; v.node = c.node; v.edge = c.edge; v.l = std::min(c.l,c.r); v.r = std::max(c.l,c.r); v.res = perform(ref, RemoveIso, a); e.ev.push_back(v); }
                }
                e.s = state(ref);
                got = ends ? p.removeEdgeWithEnds(d).label : p.removeEdge(d).label;
            }
            REQUIRE(thrown == !ok, "illegal operation was accepted");
            if(ok)
            {
                REQUIRE(got == res, "operation returned cell " << got << " instead of " << res);
                top = e; empty = false; if(!composing) commit();
            }
        }
        else if(a == 13) { g.text << "beginComposite\n"; p.beginComposite(); if(!composing++) empty = true; g.classify("composite"); }
        else if(a == 14 && !composing && levels.size() > 1)
        {
            g.text << "changeIntoComposite\n"; p.changeIntoComposite(); ++composing; levels.pop_back(); empty = false; g.classify("changeIntoComposite");
            if(lv && lv->index() >= levels.size()) lv.reset();
        }
        else if(a <= 15 && composing)
        {
            g.text << "endComposite\n"; p.endComposite(); if(!--composing && !empty) commit();
            g.classify("empty composite", !composing && empty);
        }
        else if(a == 16 && !composing)
        {
            unsigned i = g.u(levels.size()); g.text << "cutAbove(" << i << ")\n";
            if(g.u(2)) { std::unique_ptr<Pyr::Level> l(p.getLevel(i)); p.cutAbove(*l); } else p.cutAbove(i);
            levels.resize(i+1); top = levels[i]; g.classify("cutAbove"); if(lv && lv->index() >= levels.size()) lv.reset();
        }
        else if(a == 17)
        {
            if(levels.empty()) continue;
            unsigned i = g.u(levels.size()); if(composing && i >= levels.size()) continue;
            g.text << "getLevel(" << i << ")\n"; lv.reset(p.getLevel(i)); checkLevel(*lv, levels[i], i, "reconstructed level"); if(i + 1 < levels.size()) below = true;
        }
        else if(lv && !levels.empty())
        {
            unsigned i = g.u(levels.size());
            if(a == 18) { g.text << "gotoLevel(" << i << ")\n"; lv->gotoLevel(i); checkLevel(*lv, levels[i], i, "gotoLevel"); }
            else
            {
                unsigned steps = g.u(5); g.text << "approachLevel(" << i << ", " << steps << ")\n"; unsigned old = lv->index();
                bool r = lv->approachLevel(i, steps);
                REQUIRE(r == (lv->index() == i), "approachLevel returned " << r << " at level " << lv->index() << " of " << i);
                REQUIRE(lv->index() <= i, "approachLevel went beyond the goal");
                REQUIRE(r || lv->index() >= std::min(old, i) || old > i, "approachLevel went away from the goal");
                checkLevel(*lv, levels[lv->index()], lv->index(), "approachLevel");
            }
            below = true;
        }
        if(!composing) { REQUIRE(p.levelCount() == levels.size(), "levelCount " << p.levelCount() << " instead of " << levels.size()); checkLevel(p.topLevel(), top, levels.size()-1, "top level"); }
        else same(state(p.topLevel().segmentation()), top.s, "top level");
    }
    while(composing) { g.text << "endComposite\n"; p.endComposite(); if(!--composing && !empty) commit(); }
    REQUIRE(p.levelCount() == levels.size(), "levelCount " << p.levelCount() << " instead of " << levels.size());
    for(unsigned i = 0; i < levels.size(); ++i) { std::unique_ptr<Pyr::Level> l(p.getLevel(i)); checkLevel(*l, levels[i], i, "reconstructed level (finally)"); }
    checkLevel(p.topLevel(), top, levels.size()-1, "top level");
    bool refused = false; try { std::unique_ptr<Pyr::Level> l(p.getLevel(levels.size())); } catch(vigra::ContractViolation &) { refused = true; }
    REQUIRE(refused, "getLevel beyond the top was accepted");
    g.classify("more than one checkpoint", quiet.o.str().find("stored checkpoint at level", quiet.o.str().find("stored checkpoint") + 10) != std::string::npos);
    g.nontrivial(levels.size() >= 4 && (below || levels.size() > 4));
}

// ------------------------------------------------------------------ P42: statistics of the cells
struct Sum { long n; double s, q; Sum() : n(0), s(0), q(0) {} void add(double v) { ++n; s += v; q += v*v; } void add(Sum const &o) { n += o.n; s += o.s; q += o.q; }
    bool operator==(Sum const &o) const { return n == o.n && s == o.s && q == o.q; } };
static std::ostream &operator<<(std::ostream &o, Sum const &s) { return o << s.n << " values, sum " << s.s << ", squares " << s.q; }
struct StatModel
{
    std::map<CellLabel, Sum> f; std::map<CellLabel, Sum> e; std::map<CellLabel, bool> eMax;
    std::map<CellLabel, std::set<CellLabel> > parts;        // all original edges an edge consists of
};
typedef CellPyramid<Map, CellStatistics> SPyr;

PROP(P42, "at least 4 operations of at least 2 kinds")
{
    Img im; std::shared_ptr<Map> m = genMap(g, im); int W = im.W, H = im.H;
    if(W > 40 || H > 40) throw pbt::Discard();
    struct Quiet { std::streambuf *b; std::ostringstream o; Quiet() { b = std::cerr.rdbuf(o.rdbuf()); } ~Quiet() { std::cerr.rdbuf(b); } } quiet;
    SegmentationData sd; sd.doEdgeRethinning = false;
    sd.preparedOriginal_.resize(W, H); sd.gradientMagnitude_.resize(W, H); sd.edgelImage.resize(W, H);
    unsigned a1 = g.u(97), a2 = g.u(89), a3 = g.u(7);
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x)
    { sd.preparedOriginal_(x,y) = int((x*31 + y*17 + x*y*5 + a1*13) % 23) - 5; sd.gradientMagnitude_(x,y) = int((x*19 + y*29 + x*y*7 + a2*11) % 31) / 2.0f; sd.edgelImage(x,y) = (x*5 + y*11 + x*y*3 + a3*4) % 7 < 3; }
    bool autop = g.p(1,3); sd.doAutoProtection = autop; sd.autoProtectionThreshold = g.pick(std::vector<double>{0.0, 0.25, 0.5, 0.75});
    g.text << "image " << a1 << " " << a2 << " " << a3 << (autop ? " automatic protection " : " ") << sd.autoProtectionThreshold << "\n";
    State s = state(*m);
    EdgeProtection prot(m->maxEdgeLabel() + 1);
    bool useProt = g.p(5,6) || autop;
    CellStatistics st(*m, &sd, useProt ? &prot : 0);
    auto in = [&](Px const &p) { return p.first >= 0 && p.second >= 0 && p.first < W && p.second < H; };
    auto orig = [&](std::set<Px> const &v) { Sum r; for(auto const &p : v) if(in(p)) r.add(sd.preparedOriginal_(p.first, p.second)); return r; };
    auto grad = [&](std::set<Px> const &v) { Sum r; for(auto const &p : v) if(in(p)) r.add(sd.gradientMagnitude_(p.first, p.second)); return r; };
    auto edgels = [&](std::set<Px> const &v) { unsigned r = 0; for(auto const &p : v) if(in(p) && sd.edgelImage(p.first, p.second)) ++r; return r; };
    // model of the initial state
    StatModel mod; std::map<CellLabel, unsigned> flags;
    for(auto const &f : s.f) if(f.first) mod.f[f.first] = orig(f.second); else mod.f[0] = Sum();
    for(auto const &e : s.e)
    {
        bool border = !s.sides[e.first].first;      // sides are sorted
        mod.eMax[e.first] = border; if(!border) mod.e[e.first] = grad(e.second);
        mod.parts[e.first].insert(e.first); flags[e.first] = border && useProt ? EPBorder : 0;
    }
    for(auto const &n : s.n)
    {
        double x = 0, y = 0; for(auto const &p : n.second) { x += p.first; y += p.second; }
        x /= n.second.size(); y /= n.second.size();
        REQUIRE(std::abs(st.nodeCenters_[n.first][0] - x) < 1e-4 && std::abs(st.nodeCenters_[n.first][1] - y) < 1e-4, "centre of node " << n.first << " is " << st.nodeCenters_[n.first] << " instead of " << x << "," << y);
    }
    REQUIRE(st.lastChanges().contains(Rect2D(0, 0, W, H)), "initially, not everything is marked as changed");
    auto check = [&](CellStatistics const &c, StatModel const &mo, State const &s, std::string const &what)
    {
        for(auto const &f : s.f)
        {
            CellStatistics::FaceStatistics const &x = c.faceStatistics_[f.first]; Sum y; y.n = x.count_; y.s = x.sum_; y.q = x.squareSum_;
            REQUIRE(y == mo.f.at(f.first), what << ": face " << f.first << " has " << y << " instead of " << mo.f.at(f.first));
            if(y.n) { double av = y.s / y.n, va = y.q / y.n - av*av;
                REQUIRE(std::abs(x.average() - av) < 1e-4 && std::abs(x.variance() - va) < 1e-2, what << ": average/variance of face " << f.first << " are " << x.average() << "/" << x.variance() << " instead of " << av << "/" << va); }
        }
        for(auto const &e : s.e)
        {
            CellStatistics::EdgeStatistics const &x = c.edgeStatistics_[e.first];
            if(mo.eMax.at(e.first)) REQUIRE(x.count() == 1 && x.average() == NumericTraits<float>::max(), what << ": border edge " << e.first << " has an average of " << x.average());
            else
            {
                Sum const &y = mo.e.at(e.first); REQUIRE(x.count() == y.n, what << ": edge " << e.first << " has " << x.count() << " values instead of " << y.n);
                if(y.n) REQUIRE(std::abs(x.average() - y.s / y.n) < 1e-4, what << ": edge " << e.first << " has average " << x.average() << " instead of " << y.s / y.n);
            }
            std::set<CellLabel> parts; CellLabel l = e.first; while(parts.insert(l).second) l = c.mergedEdges_[l];
            REQUIRE(parts == mo.parts.at(e.first), what << ": edge " << e.first << " consists of " << parts.size() << " other edges than expected (" << mo.parts.at(e.first).size() << ")");
        }
    };
    auto checkProt = [&](CellStatistics const &c, StatModel const &mo, State const &s)
    {
        if(!useProt) return;
        for(auto const &e : s.e)
        {
            bool any = false; for(CellLabel l : mo.parts.at(e.first)) any |= flags[l] != 0;
            REQUIRE(c.edgeProtected(e.first) == any, "edge " << e.first << (any ? " is not" : " is") << " protected");
        }
        for(auto const &f : flags) for(int k = 0; k < 3; ++k) REQUIRE(prot.edgeProtected(f.first, 1 << k) == !!(f.second & (1 << k)), "edge " << f.first << ": wrong protection flag " << (1 << k));
    };
    auto protect = [&](StatModel const &mo, CellLabel e, unsigned flag, bool on)
    { bool ch = false; for(CellLabel l : mo.parts.at(e)) if(!!(flags[l] & flag) != on) { flags[l] ^= flag; ch = true; } return ch; };
    auto box = [&](std::set<Px> const &v) { Rect2D r; for(auto const &p : v) r |= Point2D(p.first, p.second); return r; };
    check(st, mod, s, "initially"); checkProt(st, mod, s);
    if(autop)
    {
        Rect2D want; for(auto const &e : s.e) if(protect(mod, e.first, EPCanny, edgels(e.second) > e.second.size() * sd.autoProtectionThreshold)) want |= box(e.second);
        Rect2D got = st.initAutoProtection(*m);
        REQUIRE(got == want || got.isEmpty() && want.isEmpty(), "initAutoProtection returned " << got << " instead of " << want);
        checkProt(st, mod, s); g.classify("automatic protection");
    }
    SPyr p(*m, st); std::vector<StatModel> lm(1, mod); std::vector<State> ls(1, s);
    int n = g.i(1, 25), done = 0; std::set<int> kinds; bool replay = false;
    p.topLevel().cellStatistics().clearLastChanges(); Rect2D changed;
    for(int k = 0; k < n; ++k)
    {
        CellStatistics const &top = p.topLevel().cellStatistics();
        int a = g.u(12);
        if(a == 0 && useProt && s.e.size())
        {
            auto it = s.e.begin(); std::advance(it, g.u(s.e.size())); unsigned fl = g.pick(std::vector<unsigned>{EPBorder, EPCanny, EPManual}); bool on = g.p(2,3);
            g.text << "protectEdge(" << it->first << ", " << fl << ", " << on << ")\n";
            bool want = protect(mod, it->first, fl, on), got = on && g.u(2) ? top.protectEdge(it->first, fl) : top.protectEdge(it->first, fl, on);
            REQUIRE(got == want, "protectEdge returned " << got); checkProt(top, mod, s); g.classify("edge protected");
            continue;
        }
        if(a == 1)
        {
            Rect2D r = top.clearLastChanges(); REQUIRE(r == changed || r.isEmpty() && changed.isEmpty(), "clearLastChanges returned " << r << " instead of " << changed);
            REQUIRE(top.lastChanges().isEmpty(), "lastChanges() is not empty after clearing"); changed = Rect2D(); g.text << "clearLastChanges\n"; continue;
        }
        if(a == 2 && !autop)
        {
            unsigned i = g.u(lm.size()); g.text << "getLevel(" << i << ")\n"; std::unique_ptr<SPyr::Level> l(p.getLevel(i)); check(l->cellStatistics(), lm[i], ls[i], "reconstructed level");
            if(g.u(2)) { unsigned j = g.u(lm.size()); g.text << "gotoLevel(" << j << ")\n"; l->gotoLevel(j); check(l->cellStatistics(), lm[j], ls[j], "gotoLevel"); }
            replay = true; continue;
        }
        Map &sm(const_cast<Map &>(p.topLevel().segmentation()));
        std::vector<Dart> ds = allDarts(sm); if(ds.empty()) break;
        Dart d = ds[g.u(ds.size())]; 
        if(g.u(2)) { std::vector<Dart> c; for(auto const &x : ds) if(legal(MergeE, x) && x.leftFaceLabel() && x.rightFaceLabel()) c.push_back(x); if(c.size()) d = g.pick(c); }
        else if(g.p(2,3)) { std::vector<Dart> c; for(auto const &x : ds) if(!x.isSingular() && x.leftFaceLabel() && x.rightFaceLabel()) c.push_back(x); if(c.size()) d = g.pick(c); }
        std::vector<OpK> ok; for(int o = 0; o < 4; ++o) if(legal((OpK)o, d)) ok.push_back((OpK)o);
        if(ok.empty()) continue;
        OpK op = g.pick(ok); Call c(op, d);
        g.text << opName[op] << "(" << d << ")\n"; std::set<Px> ep, np; if(c.edge) ep = s.e[c.edge]; np = s.n[c.node];
        CellLabel res;
        switch(op) { case RemoveIso: res = p.removeIsolatedNode(d).label; break; case MergeF: res = p.mergeFaces(d).label; break; case RemoveBr: res = p.removeBridge(d).label; break; default: res = p.mergeEdges(d).label; }
        State s2 = state(p.topLevel().segmentation());
        if(op == RemoveBr) mod.f[c.l].add(orig(ep));
        else if(op == MergeF) { Sum t = mod.f[c.l]; t.add(mod.f[c.r]); t.add(orig(ep)); mod.f[res] = t; }
        else if(op == MergeE)
        {
            CellLabel o = res == c.edge ? c.edge2 : c.edge; bool border = !c.l || !c.r;
            if(border) mod.eMax[res] = true;
            else { Sum t = mod.e[c.edge]; t.add(mod.e[c.edge2]); t.add(grad(np)); mod.e[res] = t; }
            mod.parts[res].insert(mod.parts[o].begin(), mod.parts[o].end());
            bool inside = true; for(auto const &q : s2.e[res]) inside &= in(q);
            if(autop && inside) protect(mod, res, EPCanny, edgels(s2.e[res]) > s2.e[res].size() * sd.autoProtectionThreshold);
            g.classify(border ? "border edges merged" : "inner edges merged");
        }
        changed |= op == MergeE ? box(s2.e[res]) : box(s2.f[res]);
        s = s2; check(p.topLevel().cellStatistics(), mod, s, opName[op]); checkProt(p.topLevel().cellStatistics(), mod, s);
        REQUIRE(p.topLevel().cellStatistics().lastChanges() == changed, "lastChanges() is " << p.topLevel().cellStatistics().lastChanges() << " instead of " << changed);
        lm.push_back(mod); ls.push_back(s); ++done; kinds.insert(op); g.classify(opName[op]);
    }
    if(g.p(1,3)) { CellStatistics c(st); c = p.topLevel().cellStatistics(); check(c, mod, s, "assigned statistics"); checkProt(c, mod, s); REQUIRE(c.lastChanges().contains(Rect2D(0, 0, W, H)), "assigned statistics do not report everything as changed"); }
    check(st, lm[0], ls[0], "original statistics after operations on the pyramid");
    g.classify("reconstructed", replay); g.nontrivial(done >= 4 && kinds.size() >= 2);
}

int main(int argc, char **argv) { return pbt::main_(argc, argv); }
