// P13 polygon editing, P14 scan conversion, P15 simplification / hull, P30 resampling and smoothing
#include "pbt.hxx"
#include "polygon.hxx"
#include <vigra/multi_array.hxx>
#include <vigra/stdimage.hxx>
#include <set>
#include <map>

typedef vigra::TinyVector<double, 2> V2;
typedef vigra::PointArray<V2> Arr;
typedef vigra::BBoxPolygon<V2> Poly;
typedef std::vector<V2> Pts;

static std::string str(Pts const &p) { std::ostringstream o; for(auto const &q : p) o << "(" << q[0] << "," << q[1] << ")"; return o.str(); }
static double plen(Pts const &p) { double l = 0; for(size_t i = 1; i < p.size(); ++i) l += std::hypot(p[i][0]-p[i-1][0], p[i][1]-p[i-1][1]); return l; }
static double parea(Pts const &p) { double l = 0; for(size_t i = 1; i < p.size(); ++i) l += p[i][0]*p[i-1][1]-p[i][1]*p[i-1][0]; return l/2; }
static bool near(double a, double b, double eps = 1e-6) { return std::fabs(a-b) <= eps * (1 + std::fabs(a) + std::fabs(b)); }
static bool near(V2 a, V2 b, double eps = 1e-6) { return near(a[0], b[0], eps) && near(a[1], b[1], eps); }
static Pts toPts(Arr const &a) { return Pts(a.begin(), a.end()); }
static double cross(V2 o, V2 a, V2 b) { return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0]); }
static double segDist(V2 p, V2 a, V2 b)
{
    V2 d = b - a; double l2 = d[0]*d[0]+d[1]*d[1]; double t = l2 > 0 ? ((p[0]-a[0])*d[0]+(p[1]-a[1])*d[1])/l2 : 0;
    t = std::min(1.0, std::max(0.0, t)); V2 q = a + t*d; return std::hypot(p[0]-q[0], p[1]-q[1]);
}
static double polyDist(V2 p, Pts const &a) { double d = 1e300; for(size_t i = 1; i < a.size(); ++i) d = std::min(d, segDist(p, a[i-1], a[i])); return d; }
static bool inside(V2 p, Pts const &a)
{
    bool in = false;
    for(size_t i = 1; i < a.size(); ++i)
        if((a[i-1][1] > p[1]) != (a[i][1] > p[1])) { double c = cross(a[i-1], a[i], p); if((a[i][1] > a[i-1][1]) == (c > 0)) in = !in; }
    return in;
}

static V2 genPt(pbt::Ctx &g, int lim = 8)
{
    int k = g.u(3);
    if(k == 0) { double x = g.i(-lim, lim); return V2(x, g.i(-lim, lim)); }
    double q = k == 1 ? 2.0 : 8.0;
    double x = g.i((int)(-lim*q), (int)(lim*q)) / q; return V2(x, g.i((int)(-lim*q), (int)(lim*q)) / q);
}
static Pts genPts(pbt::Ctx &g, int minN, int maxN, int lim = 8)
{
    Pts p; int n = g.i(minN, maxN); bool walk = g.u(2);
    for(int i = 0; i < n; ++i)
        if(walk && p.size()) { double dx = g.i(-3, 3); p.push_back(p.back() + V2(dx, g.i(-3, 3))); }
        else p.push_back(genPt(g, lim));
    return p;
}
static Poly mk(Pts const &p) { return Poly(Arr(p.begin(), p.end())); }

/********************************************************************/
static void checkPoly(Poly const &p, Pts const &m, std::string const &what)
{
    REQUIRE(p.size() == m.size(), what << ": polygon has " << p.size() << " points instead of " << m.size());
    for(size_t i = 0; i < m.size(); ++i) REQUIRE(p[i] == m[i], what << ": point " << i << " differs");
    REQUIRE(near(p.length(), plen(m)), what << ": length() is " << p.length() << " instead of " << plen(m));
    REQUIRE(near(p.partialArea(), parea(m)), what << ": partialArea() is " << p.partialArea() << " instead of " << parea(m));
    if(m.size())
    {
        V2 lo = m[0], hi = m[0];
        for(auto const &q : m) for(int k = 0; k < 2; ++k) { lo[k] = std::min(lo[k], q[k]); hi[k] = std::max(hi[k], q[k]); }
        Poly::BoundingBox b = p.boundingBox();
        REQUIRE(near(b.begin(), lo) && near(b.end(), hi), what << ": bounding box is " << b.begin() << ".." << b.end() << " instead of " << lo << ".." << hi);
        REQUIRE(p.closed() == (m.front() == m.back()), what << ": closed()");
        std::vector<double> al; p.arcLengthList(al);
        REQUIRE(al.size() == m.size(), what << ": arcLengthList size");
        for(size_t i = 0; i < al.size(); ++i) REQUIRE(near(al[i], plen(Pts(m.begin(), m.begin()+i+1))), what << ": arc length of point " << i);
    }
    else
        REQUIRE(p.boundingBox().isEmpty(), what << ": bounding box of an empty polygon is not empty");
}

PROP(P13, ">= 3 editing operations after a derived quantity was cached, >= 3 points")
{
    Pts m = g.u(4) ? genPts(g, 0, 6) : Pts();
    Poly p;
    if(m.size()) p = mk(m);
    g.text << "start " << str(m) << "\n";
    int n = g.i(1, 14), edits = 0; bool warm = false;
    size_t maxPts = m.size();
    auto warmUp = [&](Poly const &q) {
        int w = g.u(8);
        if(w & 1) q.length();
        if(w & 2) q.partialArea();
        if(w & 4) q.boundingBox();
        warm |= w != 0;
        g.text << "cached " << ((w & 1) ? "length " : "") << ((w & 2) ? "area " : "") << ((w & 4) ? "bbox" : "") << "\n";
    };
    for(int k = 0; k < n; ++k)
    {
        warmUp(p);
        int op = g.u(14); std::string what;
        if(op == 0) { V2 q = g.u(4) || m.empty() ? genPt(g) : m[0]; what = "push_back"; g.text << what << q << "\n"; p.push_back(q); m.push_back(q); }
        else if(op == 1)
        {
            Pts o = genPts(g, 0, 4); if(m.size() && o.size() && g.u(2)) o[0] = m.back();
            Poly q; if(o.size()) q = mk(o); 
            warmUp(q);
            what = "extend"; g.text << what << str(o) << "\n"; p.extend(q);
            m.insert(m.end(), o.begin() + (m.size() && o.size() && o[0] == m.back() ? 1 : 0), o.end());
        }
        else if(op == 2) { if(m.empty()) continue; int i = g.u(m.size()); V2 q = genPt(g, g.u(3) ? 8 : 16); what = "setPoint"; g.text << what << i << q << "\n"; p.setPoint(i, q); m[i] = q; }
        else if(op == 3) { if(m.empty()) continue; int i = g.u(m.size()); what = "erase"; g.text << what << i << "\n"; p.erase(p.begin() + i); m.erase(m.begin() + i); }
        else if(op == 4) { int i = g.u(m.size() + 1); V2 q = genPt(g); what = "insert"; g.text << what << i << q << "\n"; Poly::iterator r = p.insert(p.begin() + i, q); REQUIRE(r - p.begin() == i, "insert returns a wrong position"); m.insert(m.begin() + i, q); }
        else if(op == 5) { int i = g.u(m.size() + 1); Pts o = genPts(g, 0, 3); what = "insert range"; g.text << what << i << str(o) << "\n"; Poly::iterator r = p.insert(p.begin() + i, o.begin(), o.end()); REQUIRE(r - p.begin() == i, "insert returns a wrong position"); m.insert(m.begin() + i, o.begin(), o.end()); }
        else if(op == 6)
        {
            if(m.empty()) continue; int i = g.u(m.size()); what = "split"; g.text << what << i << "\n";
            Poly r = p.split(i); Pts rest(m.begin() + i, m.end()); m.erase(m.begin() + i + 1, m.end());
            checkPoly(r, rest, "split off part");
            if(g.u(3) == 0) { p.swap(r); m.swap(rest); }
        }
        else if(op == 7) { Pts o = genPts(g, 0, 4); Poly q = mk(o); warmUp(q); what = "swap(Polygon)"; g.text << what << str(o) << "\n"; p.swap(q); checkPoly(q, m, "swapped partner"); m = o; }
        else if(op == 8) { Pts o = genPts(g, 0, 4); Arr q(o.begin(), o.end()); what = "swap(PointArray)"; g.text << what << str(o) << "\n"; p.swap(q); REQUIRE(toPts(q) == m, "array swapped with polygon"); m = o; }
        else if(op == 9) { what = "reverse"; g.text << what << "\n"; p.reverse(); std::reverse(m.begin(), m.end()); }
        else if(op == 10) { if(g.u(2)) continue; what = "clear"; g.text << what << "\n"; p.clear(); m.clear(); }
        else if(op == 11) { if(m.empty()) continue; int i = g.u(m.size()); V2 q = genPt(g); what = "in-place change + invalidateProperties"; g.text << what << i << q << "\n"; p[i] = q; p.invalidateProperties(); m[i] = q; }
        else if(op == 12) { what = "copy"; g.text << what << "\n"; Poly q(p); checkPoly(q, m, what); q.push_back(V2(99, 99)); Poly r; r = q; r.erase(r.begin() + m.size()); p = r; }
        else { what = "operators"; g.text << what << "\n"; Arr a = p * 2.0, b = p + V2(1.5, -2); for(size_t i = 0; i < m.size(); ++i) REQUIRE(near(a[i], V2(m[i]*2.0)) && near(b[i], V2(m[i]+V2(1.5,-2))), "scaled/shifted copy"); }
        if(warm) ++edits;
        maxPts = std::max(maxPts, m.size());
        if(g.u(2)) checkPoly(p, m, what);
    }
    checkPoly(p, m, "final polygon");
    if(m.size() >= 2)
    {
        V2 q = genPt(g);
        V2 r = p.nearestPoint(q);
        double want = polyDist(q, m), got = std::hypot(r[0]-q[0], r[1]-q[1]);
        REQUIRE(near(want, got), "nearestPoint(" << q << ") is " << r << " at distance " << got << ", polygon is at " << want);
        REQUIRE(polyDist(r, m) < 1e-6, "nearestPoint not on the polygon");
        m.push_back(m.front()); p.push_back(p.front());
        for(int k = 0; k < 4; ++k)
        {
            V2 c = genPt(g, 9);
            if(polyDist(c, m) < 1e-9) continue;
            REQUIRE(p.contains(c) == inside(c, m), "contains(" << c << ") is wrong for " << str(m));
        }
        if(std::fabs(parea(m)) > 0.5)
        {
            V2 c = vigra::centroid(p);
            // oracle: fan triangulation around a foreign point
            V2 o(3.7, -1.3); double A = 0, X = 0, Y = 0;
            for(size_t i = 1; i < m.size(); ++i) { double a = cross(o, m[i-1], m[i]) / 2; A += a; X += a * (o[0]+m[i-1][0]+m[i][0]) / 3; Y += a * (o[1]+m[i-1][1]+m[i][1]) / 3; }
            REQUIRE(near(c, V2(X/A, Y/A), 1e-6), "centroid is " << c << " instead of " << X/A << "," << Y/A);
        }
    }
    g.classify("cached before edits", warm);
    g.nontrivial(edits >= 3 && maxPts >= 3);
}

/********************************************************************/
// P14
static bool segInBox(V2 a, V2 b, double cx, double cy, double h)
{
    double t0 = 0, t1 = 1;
    for(int k = 0; k < 2; ++k)
    {
        double d = b[k]-a[k], o = a[k] - (k ? cy : cx);
        if(d == 0) { if(!(o > -h && o < h)) return false; continue; }
        double u = (-h-o)/d, v = (h-o)/d; if(u > v) std::swap(u, v);
        t0 = std::max(t0, u); t1 = std::min(t1, v);
    }
    if(a == b) return true;
    auto in = [&](V2 p) { return std::fabs(p[0]-cx) < h && std::fabs(p[1]-cy) < h; };
    return t0 < t1 - 1e-12 || (t0 <= t1 && (in(a) || in(b)));
}
static bool polyInBox(Pts const &p, double cx, double cy, double h) { for(size_t i = 1; i < p.size(); ++i) if(segInBox(p[i-1], p[i], cx, cy, h)) return true; return false; }

typedef std::set<std::pair<int,int> > Pix;
static Pix pixels(vigra::Scanlines const &s)
{
    Pix r;
    for(int y = s.startIndex(); y < s.endIndex(); ++y)
        for(unsigned j = 0; j < s[y].size(); ++j) for(int x = s[y][j].begin; x < s[y][j].end; ++x) r.insert(std::make_pair(x, y));
    return r;
}

// simple closed polygon: star-shaped around a centre, or rectilinear comb
static Pts genSimple(pbt::Ctx &g)
{
    Pts p;
    if(g.u(2))
    {
        static const int dir[16][2] = {{4,0},{4,1},{3,3},{1,4},{0,4},{-1,4},{-3,3},{-4,1},{-4,0},{-4,-1},{-3,-3},{-1,-4},{0,-4},{1,-4},{3,-3},{4,-1}};
        V2 c = genPt(g, 5); int n = 0; int gap = 0; std::vector<int> use;
        for(int k = 0; k < 16; ++k) if(g.u(3) || ++gap > 3) { use.push_back(k); gap = 0; }
        for(int k : use) { double r = g.i(1, 8) / 8.0; p.push_back(V2(c[0] + dir[k][0]*r, c[1] + dir[k][1]*r)); ++n; }
        // consecutive directions must be less than 180 degrees apart
        for(size_t i = 0; i < use.size(); ++i) { int d = (use[(i+1)%use.size()] - use[i] + 16) % 16; if(d >= 8 || use.size() < 3) return Pts(); }
    }
    else
    {
        double q = g.u(2) ? 1 : 2; double x = g.i(-4, 4) - (g.u(2) ? 0.5 : 0), y = g.i(-4, 4) - (g.u(2) ? 0.5 : 0); int teeth = g.i(1, 4);
        double base = y + g.i(4, 7) / q; double x0 = x;
        for(int k = 0; k < teeth; ++k)
        {
            double top = y + g.i(-3, 3) / q, w = g.i(1, 3) / q;
            p.push_back(V2(x, top)); x += w; p.push_back(V2(x, top));
        }
        p.push_back(V2(x, base)); p.push_back(V2(x0, base));
    }
    if(g.u(2)) std::reverse(p.begin(), p.end());
    if(p.size()) { std::rotate(p.begin(), p.begin() + g.u(p.size()), p.end()); p.push_back(p[0]); }
    return p;
}
static bool axisParallel(Pts const &p) { for(size_t i = 1; i < p.size(); ++i) if(p[i][0] != p[i-1][0] && p[i][1] != p[i-1][1]) return false; return true; }

PROP(P14, "polygon with >= 4 points touching >= 4 pixels")
{
    bool closed = g.u(3);
    Pts p = closed ? genSimple(g) : genPts(g, 1, 8, 6);
    if(p.empty()) throw pbt::Discard();
    g.text << (closed ? "simple closed " : "polyline ") << str(p) << "\n";
    Poly poly = mk(p);
    std::auto_ptr<vigra::Scanlines> sl = scanPoly(poly);
    Pix px = pixels(*sl);
    double eps = axisParallel(p) ? 0 : 1e-7;
    V2 lo = p[0], hi = p[0];
    for(auto const &q : p) for(int k = 0; k < 2; ++k) { lo[k] = std::min(lo[k], q[k]); hi[k] = std::max(hi[k], q[k]); }
    int x0 = (int)std::floor(lo[0]) - 2, x1 = (int)std::ceil(hi[0]) + 2, y0 = (int)std::floor(lo[1]) - 2, y1 = (int)std::ceil(hi[1]) + 2;
    for(auto const &q : px) REQUIRE(q.first >= x0 && q.first <= x1 && q.second >= y0 && q.second <= y1, "scanlines reach pixel (" << q.first << "," << q.second << ") far outside");
    if(p.size() > 1) for(int y = y0; y <= y1; ++y) for(int x = x0; x <= x1; ++x)
    {
        bool got = px.count(std::make_pair(x, y)) != 0;
        bool mustTouch = polyInBox(p, x, y, 0.5 - eps), mayTouch = polyInBox(p, x, y, 0.5 + eps);
        if(mustTouch) REQUIRE(got, "pixel (" << x << "," << y << ") is crossed but not scanned");
        if(!mayTouch) REQUIRE(!got, "pixel (" << x << "," << y << ") is scanned but not crossed");
    }
    {   // iteration over the crossed pixels
        Pix it; bool any = !px.empty();
        if(any) for(vigra::ScanlinesIter i(*sl); i.inRange(); ++i) REQUIRE(it.insert(std::make_pair((*i).x, (*i).y)).second, "ScanlinesIter visits a pixel twice");
        REQUIRE(it == px, "ScanlinesIter visits " << it.size() << " of " << px.size() << " pixels");
    }
    for(int y = sl->startIndex(); y < sl->endIndex(); ++y) for(unsigned j = 0; j < (*sl)[y].size(); ++j)
    {
        vigra::ScanlineSegment const &s = (*sl)[y][j];
        if(j) REQUIRE((*sl)[y][j-1].end < s.begin, "scanline " << y << " is not normalized");
    }
    // explicitly given range of lines
    {
        int start = g.i(y0, y1); unsigned cnt = g.u(y1 - start + 2);
        std::auto_ptr<vigra::Scanlines> part = scanPoly(Arr(p.begin(), p.end()), cnt, start);
        Pix want; for(auto const &q : px) if(q.second >= start && q.second < start + (int)cnt) want.insert(q);
        REQUIRE(pixels(*part) == want, "scanPoly restricted to lines " << start << "+" << cnt << " differs");
    }
    // splitting the polyline and adding the parts is the same
    if(p.size() >= 2)
    {
        size_t k = g.u(p.size());
        Poly a = mk(Pts(p.begin(), p.begin()+k+1)), b = mk(Pts(p.begin()+k, p.end()));
        std::auto_ptr<vigra::Scanlines> sa = scanPoly(a), sb = scanPoly(b);
        *sa += *sb;
        Pix u = pixels(*sa);
        for(auto const &q : px) REQUIRE(u.count(q), "pixel (" << q.first << "," << q.second << ") lost when adding scanlines of parts");
        // parts of a single point may touch a pixel of their own
        if(k > 0 && k + 1 < p.size() && eps == 0) REQUIRE(u == px || [&]{ for(auto const &q : u) if(!px.count(q) && !(std::fabs(p[k][0]-q.first) <= .5 && std::fabs(p[k][1]-q.second) <= .5)) return false; return true; }(), "adding scanlines of parts gives foreign pixels");
    }
    // drawing and filling within an image
    int W = g.i(1, 12), H = g.i(1, 12);
    {
        vigra::MultiArray<2,int> img(vigra::MultiArray<2,int>::difference_type(W, H), 0);
        unsigned n = drawScannedPoly(*sl, 7, destMultiArrayRange(img));
        unsigned cnt = 0;
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) { bool in = px.count(std::make_pair(x,y)); cnt += in; REQUIRE((img(x,y) == 7) == in, "drawScannedPoly at (" << x << "," << y << ")"); }
        REQUIRE(n == cnt, "drawScannedPoly returns " << n << " instead of " << cnt);
    }
    if(closed)
    {
        Pts c = p; if(parea(c) < 0) std::reverse(c.begin(), c.end());   // positive winding is filled
        Poly cp = mk(c); std::auto_ptr<vigra::Scanlines> cs = scanPoly(cp);
        REQUIRE(pixels(*cs) == px, "scanlines depend on the direction");
        vigra::MultiArray<2,int> img(vigra::MultiArray<2,int>::difference_type(W, H), 0);
        unsigned n = fillScannedPoly(*cs, 7, destMultiArrayRange(img)), cnt = 0;
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x)
        {
            bool want = !px.count(std::make_pair(x,y)) && inside(V2(x,y), p);
            cnt += want;
            REQUIRE((img(x,y) == 7) == want, "fillScannedPoly at (" << x << "," << y << "): " << img(x,y) << ", but the pixel is " << (want ? "" : "not ") << "entirely inside");
        }
        REQUIRE(n == cnt, "fillScannedPoly returns " << n << " instead of " << cnt);
        cs->reverse(); cs->reverse();
        vigra::MultiArray<2,int> img2(vigra::MultiArray<2,int>::difference_type(W, H), 0);
        REQUIRE(fillScannedPoly(*cs, 7, destMultiArrayRange(img2)) == n, "double reversal of scanlines");
        g.classify("pixels filled", n > 0);
    }
    else
    {
        Pts r(p.rbegin(), p.rend()); Poly rp = mk(r);
        std::auto_ptr<vigra::Scanlines> rs = scanPoly(rp);
        if(eps == 0) REQUIRE(pixels(*rs) == px, "scanlines depend on the direction");
    }
    g.classify("closed", closed); g.classify("axis-parallel", eps == 0);
    g.nontrivial(p.size() >= 4 && px.size() >= 4);
}

/********************************************************************/
// P15
static Pts hullOracle(Pts p)   // monotone chain, strict
{
    auto less = [](V2 const &a, V2 const &b) { return a[0] < b[0] || (a[0] == b[0] && a[1] < b[1]); };
    std::sort(p.begin(), p.end(), less); p.erase(std::unique(p.begin(), p.end()), p.end());
    if(p.size() < 3) return p;
    Pts h(2*p.size()); int k = 0;
    for(size_t i = 0; i < p.size(); ++i) { while(k >= 2 && cross(h[k-2], h[k-1], p[i]) <= 0) --k; h[k++] = p[i]; }
    for(int i = (int)p.size()-2, t = k+1; i >= 0; --i) { while(k >= t && cross(h[k-2], h[k-1], p[i]) <= 0) --k; h[k++] = p[i]; }
    h.resize(k-1); return h;
}
// is there a matching of simple to indices of p such that pred holds between consecutive indices?
template<class PRED> static bool matching(Pts const &p, Pts const &s, PRED pred)
{
    std::vector<char> cur(p.size(), 0);
    if(!(p[0] == s[0])) return false;
    cur[0] = 1;
    for(size_t j = 1; j < s.size(); ++j)
    {
        std::vector<char> nx(p.size(), 0);
        for(size_t i = 0; i < p.size(); ++i) if(cur[i]) for(size_t k = i + 1; k < p.size(); ++k) if(p[k] == s[j] && !nx[k] && pred(i, k)) nx[k] = 1;
        cur = nx;
    }
    return cur.back();
}
PROP(P15, ">= 5 points and at least one of them dropped by simplification or strictly inside the hull")
{
    Pts p = genPts(g, 2, g.p(1,3) ? 40 : 14);
    if(g.p(1,3)) p.push_back(p[0]);
    if(g.p(1,4)) { int n = g.i(1, 4); for(int k = 0; k < n; ++k) { V2 c = p[g.u(p.size())]; p.insert(p.begin() + g.u(p.size()+1), c); } }
    if(g.p(1,4)) { V2 d(g.i(-3, 3), g.i(-3, 3)); int sh = g.u(7); for(size_t i = 0; i < p.size(); ++i) p[i] = V2((p[i][0] / 8 + d[0] * i) / (1 << sh), (p[i][1] / 8 + d[1] * i) / (1 << sh)); }   // nearly straight, maybe tiny
    g.text << str(p) << "\n";
    bool nt = false;
    double epsilon = g.pick(std::vector<double>{0.0, 0.0625, 0.25, 0.5, 1.0, 2.0});
    double maxStep = g.pick(std::vector<double>{1.5, 3.0, 6.0});
    g.text << "epsilon " << epsilon << " maxStep " << maxStep << "\n";
    auto lineDist = [&](V2 q, V2 a, V2 b) { V2 d = b-a; double l = std::hypot(d[0], d[1]); return l < 1e-8 ? std::hypot(q[0]-a[0], q[1]-a[1]) : std::fabs(cross(a, b, q)) / l; };
    auto okBetween = [&](size_t i, size_t k) { for(size_t j = i + 1; j < k; ++j) if(lineDist(p[j], p[i], p[k]) > epsilon + 1e-9) return false; return true; };
    {
        Poly src = mk(p), dst; simplifyPolygon(src, dst, epsilon);
        Pts s = toPts(dst);
        REQUIRE(s.size() <= p.size() && s.size() >= 2 && s.front() == p.front() && s.back() == p.back(), "simplifyPolygon changes the end points: " << str(s));
        REQUIRE(matching(p, s, okBetween), "simplifyPolygon result " << str(s) << " is no subsequence with all dropped points within " << epsilon);
        REQUIRE(near(dst.length(), plen(s)) && near(dst.partialArea(), parea(s)), "cached quantities of the simplified polygon");
        nt |= s.size() < p.size();
        bool straight = epsilon > 0; for(size_t j = 1; j + 1 < p.size(); ++j) straight &= lineDist(p[j], p.front(), p.back()) < epsilon - 1e-6;
        if(straight) { g.classify("everything within epsilon"); REQUIRE(s.size() == 2, "simplifyPolygon keeps " << s.size() << " points although all of them are within " << epsilon << " of the straight line"); }
        Poly dst2; simplifyPolygon(src, dst2, epsilon, maxStep); Pts t = toPts(dst2);
        REQUIRE(t.front() == p.front() && t.back() == p.back(), "simplifyPolygon(maxStep) changes the end points");
        REQUIRE(matching(p, t, [&](size_t i, size_t k) { if(k > i + 1 && std::hypot(p[i][0]-p[k][0], p[i][1]-p[k][1]) > maxStep + 1e-9) return false; return okBetween(i, k); }),
                "simplifyPolygon(maxStep) result " << str(t) << " violates epsilon or the step limit");
        if(straight && std::hypot(p.back()[0]-p[0][0], p.back()[1]-p[0][1]) < maxStep - 1e-9) REQUIRE(t.size() == 2, "simplifyPolygon(maxStep) keeps " << t.size() << " points of an almost straight polygon");
    }
    {
        Poly src = mk(p), dst; convexHull(src, dst);
        Pts h = toPts(dst), want = hullOracle(p);
        REQUIRE(h.size() >= 3 && h.front() == h.back(), "convexHull is not closed: " << str(h));
        for(auto const &q : h) REQUIRE(std::find(p.begin(), p.end(), q) != p.end(), "convexHull has a foreign vertex " << q);
        for(auto const &q : want) REQUIRE(std::find(h.begin(), h.end(), q) != h.end(), "convexHull " << str(h) << " misses extreme point " << q);
        double wa = 0; for(size_t i = 0; i < want.size(); ++i) wa += cross(V2(0,0), want[i], want[(i+1)%want.size()]) / 2;
        REQUIRE(near(std::fabs(parea(h)), wa), "convexHull " << str(h) << " has area " << std::fabs(parea(h)) << " instead of " << wa);
        int s = 0;
        for(size_t i = 0; i + 2 < h.size() + 1; ++i)
        {
            double c = cross(h[i], h[i+1], i + 2 < h.size() ? h[i+2] : h[1]); if(i + 1 >= h.size()) break;
            int k = c > 1e-12 ? 1 : c < -1e-12 ? -1 : 0; if(k) { REQUIRE(!s || s == k, "convexHull " << str(h) << " is not convex"); s = k; }
        }
        nt |= want.size() + 1 < p.size();
    }
    g.classify("duplicate points", [&]{ Pts q = p; std::sort(q.begin(), q.end(), [](V2 a, V2 b){ return a[0] < b[0] || (a[0] == b[0] && a[1] < b[1]); }); return std::adjacent_find(q.begin(), q.end()) != q.end(); }());
    g.classify("more than 16 points", p.size() > 16);
    g.nontrivial(p.size() >= 5 && nt);
}

/********************************************************************/
// P30
PROP(P30, ">= 4 points with positive length, resampled to >= 3 segments")
{
    Pts p = genPts(g, 2, 12);
    if(g.u(2))
    {   // densely sampled curve
        p.resize(1); int n = g.i(8, 30);
        for(int k = 0; k < n; ++k) { double dx = g.i(-4, 5) / 8.0; p.push_back(p.back() + V2(dx, g.i(-4, 5) / 8.0)); }
    }
    // no zero-length segments (arc length parametrization)
    Pts q; for(auto const &x : p) if(q.empty() || !(q.back() == x)) q.push_back(x);
    p = q;
    bool closed = g.p(1,3) && p.size() >= 3 && !(p.front() == p.back());
    if(closed) p.push_back(p[0]);
    if(p.size() < 2) throw pbt::Discard();
    closed = p.front() == p.back();
    double d = g.pick(std::vector<double>{0.3, 0.7, 1.0, 2.5, 7.0});
    double scale = g.pick(std::vector<double>{0.5, 1.0, 2.0});
    g.text << str(p) << "\nstep " << d << " scale " << scale << (closed ? " closed" : "") << "\n";
    double L = plen(p);
    Poly src = mk(p);
    V2 t = genPt(g);
    Pts pt; for(auto const &x : p) pt.push_back(x + t);
    Pts pm; for(auto const &x : p) pm.push_back(V2(-x[1], x[0]));     // rotated by 90 degrees
    Poly srcT = mk(pt), srcM = mk(pm);
    auto same = [&](Poly const &a, Poly const &b, std::function<V2(V2)> f, std::string const &what) {
        REQUIRE(a.size() == b.size(), what << ": " << a.size() << " vs. " << b.size() << " points");
        for(size_t i = 0; i < a.size(); ++i) { V2 e = f(a[i]); REQUIRE(near(e, b[i], 1e-5), what << ": point " << i << " is " << b[i] << " instead of " << e); }
    };
    auto shift = [&](V2 v) { return V2(v + t); }; auto rot = [](V2 v) { return V2(-v[1], v[0]); };
    bool nt = false;
    {
        Poly r; resamplePolygonLinearInterpolation(src, r, d);
        Pts s = toPts(r);
        if(p.size() <= 2) REQUIRE(s == p, "resampling a single segment");
        else
        {
            double qn = L / d; int steps = (int)std::ceil(qn); bool border = std::fabs(qn - std::floor(qn + 0.5)) < 1e-9;
            if(!border) REQUIRE((int)s.size() == steps + 1, "resampled to " << s.size() - 1 << " instead of " << steps << " segments");
            else steps = s.size() - 1;
            REQUIRE(s.front() == p.front() && s.back() == p.back(), "resampling changed the end points");
            for(int k = 0; k <= steps; ++k)
            {   // point at arc length k*L/steps
                double a = k * L / steps, acc = 0; size_t i = 1;
                for(; i + 1 < p.size(); ++i) { double l = plen(Pts{p[i-1], p[i]}); if(acc + l >= a) break; acc += l; }
                double l = plen(Pts{p[i-1], p[i]}), u = std::min(1.0, (a - acc) / l);
                V2 e = p[i-1] * (1-u) + p[i] * u;
                REQUIRE(near(e, s[k], 1e-6), "resampled point " << k << " is " << s[k] << " instead of " << e);
            }
            nt = steps >= 3;
            Poly rT; resamplePolygonLinearInterpolation(srcT, rT, d); if(!border) same(r, rT, shift, "linear resampling of a shifted polygon");
        }
    }
    if(p.size() > 2)
    {
        Poly r, rT, rM;
        resamplePolygonExponentialFilter(src, r, scale, d);
        REQUIRE(r.size() >= 2, "exponential filter result too short");
        for(size_t i = 0; i < r.size(); ++i) REQUIRE(r[i][0] == r[i][0] && r[i][1] == r[i][1] && std::fabs(r[i][0]) < 1e6 && std::fabs(r[i][1]) < 1e6, "exponential filter yields " << r[i]);
        if(closed) REQUIRE(near(r[0], r[r.size()-1]), "exponential filter opens a closed polygon");
        {   // exponentially weighted means of the vertices, continued cyclically (one period) or by point reflection
            int n = p.size() - 1;
            std::vector<double> at; Pts val; std::vector<double> base;
            for(int i = 0; i <= n; ++i) base.push_back(plen(Pts(p.begin(), p.begin()+i+1)));
            for(int i = 0; i <= n; ++i) { at.push_back(base[i]); val.push_back(p[i]); }
            if(closed) { for(int i = 0; i < n; ++i) { at.push_back(base[i] - L); val.push_back(p[i]); at.push_back(base[i+1] + L); val.push_back(p[i+1]); } }
            else for(int i = 0; i < n; ++i) { at.push_back(-base[i+1]); val.push_back(2.0*p[0] - p[i+1]); at.push_back(2*L - base[i]); val.push_back(2.0*p[n] - p[i]); }
            auto smooth = [&](double x) { V2 v(0.0, 0.0); double w = 0; for(size_t i = 0; i < at.size(); ++i) { double e = std::exp(-std::fabs(at[i] - x) / scale); v += e * val[i]; w += e; } return V2(v / w); };
            Pts sm; for(int i = 0; i < n; ++i) sm.push_back(smooth(base[i])); sm.push_back(closed ? sm[0] : smooth(L));
            double SL = plen(sm), q = SL / d + 0.5; int steps = (int)r.size() - 1;
            if(std::fabs(q - std::floor(q + 0.5)) > 1e-6) REQUIRE(steps == std::max(1, (int)std::floor(q)), "exponential filter yields " << steps << " instead of " << (int)std::floor(q) << " segments");
            REQUIRE(near(r[0], sm[0], 1e-5) && near(r[steps], sm[n], 1e-5), "end points " << r[0] << r[steps] << " of the smoothed polygon instead of " << sm[0] << sm[n]);
            for(int k = 1; k < steps; ++k)
            {
                double a = k * SL / steps, acc = 0; int i = 1;
                for(; i < n; ++i) { double l = plen(Pts{sm[i-1], sm[i]}); if(acc + l >= a) break; acc += l; }
                double l = plen(Pts{sm[i-1], sm[i]});
                if(l < 1e-6) { g.classify("smoothed vertices coincide"); continue; }
                V2 e = smooth(base[i-1] + (base[i] - base[i-1]) * std::min(1.0, (a - acc) / l));
                REQUIRE(near(e, r[k], 1e-5 * (1 + 1e-2 / l)), "exponentially smoothed point " << k << "/" << steps << " is " << r[k] << " instead of " << e);
            }
        }
        resamplePolygonExponentialFilter(srcT, rT, scale, d); resamplePolygonExponentialFilter(srcM, rM, scale, d);
        if(rT.size() == r.size() && std::abs((int)rT.size() - (int)r.size()) == 0) same(r, rT, shift, "exponential filter of a shifted polygon");
        if(rM.size() == r.size()) same(r, rM, rot, "exponential filter of a rotated polygon");
        REQUIRE(std::abs((int)rT.size() - (int)r.size()) <= 1 && std::abs((int)rM.size() - (int)r.size()) <= 1, "exponential filter: number of points depends on the position");
    }
    else
    {
        Poly r, rG; resamplePolygonExponentialFilter(src, r, scale, d); resamplePolygonGaussianFilter(src, rG, scale, d);
        REQUIRE(toPts(r) == p && toPts(rG) == p, "smoothing a single segment changes it");
    }
    vigra::Gaussian<double> gf(scale);
    bool tieRadius = std::fabs(L - gf.radius()) < 1e-9;
    if(p.size() > 2 && L > gf.radius() && !tieRadius)
    {
        Poly r, rT;
        resamplePolygonGaussianFilter(src, r, scale, d);
        double qn = L / d; int steps = (int)std::ceil(qn);
        if(std::fabs(qn - std::floor(qn + 0.5)) < 1e-9) steps = (int)r.size() - 1;
        REQUIRE((int)r.size() == steps + 1, "Gaussian filter yields " << r.size() - 1 << " instead of " << steps << " segments");
        if(closed) REQUIRE(near(r[0], r[r.size()-1]), "Gaussian filter opens a closed polygon");
        // points continued anti-reflectively or cyclically, with their arc lengths
        int n = p.size() - 1;
        std::vector<double> al; std::vector<V2> ext; std::vector<double> base;
        for(int i = 0; i <= n; ++i) base.push_back(plen(Pts(p.begin(), p.begin()+i+1)));
        for(int c = closed ? -2 : -1; c <= (closed ? 2 : 1); ++c)
            for(int i = 0; i <= n; ++i)
            {
                if(closed) { if(i < n) { al.push_back(base[i] + c*L); ext.push_back(p[i]); } }
                else if(c == -1) { if(i > 0) { al.push_back(-base[i]); ext.push_back(2.0*p[0] - p[i]); } }
                else if(c == 0) { al.push_back(base[i]); ext.push_back(p[i]); }
                else if(i < n) { al.push_back(2*L - base[i]); ext.push_back(2.0*p[n] - p[i]); }
            }
        bool ambiguous = false; int checked = 0;
        for(int k = 0; k <= steps; ++k)
        {
            double a = (closed && k == steps) ? 0.0 : k * L / steps;
            V2 sum(0.0, 0.0); double norm = 0; bool amb = false;
            for(size_t i = 0; i < al.size(); ++i)
            {
                double diff = al[i] - a;
                if(std::fabs(std::fabs(diff) - gf.radius()) < 1e-9) amb = true;
                if(std::fabs(diff) > gf.radius()) continue;
                double w = std::exp(-diff*diff / (2*scale*scale)); sum += w * ext[i]; norm += w;
            }
            ambiguous |= amb;
            if(amb || norm < 1e-9) continue;     // no (certain) point within the filter radius
            ++checked;
            V2 e = sum / norm;
            REQUIRE(near(e, r[k], 1e-4), "Gaussian filter: point " << k << " is " << r[k] << " instead of " << e);
        }
        resamplePolygonGaussianFilter(srcT, rT, scale, d);
        if(rT.size() == r.size() && !ambiguous && L <= gf.radius() * 1e9)
            for(size_t i = 0; i < r.size(); ++i) if(r[i][0] == r[i][0]) REQUIRE(near(shift(r[i]), rT[i], 1e-5), "Gaussian filter of a shifted polygon: point " << i << " is " << rT[i] << " instead of " << shift(r[i]));
        g.classify("Gaussian", checked > 0);
    }
    g.classify("closed", closed);
    g.nontrivial(p.size() >= 4 && nt);
}

int main(int argc, char **argv) { return pbt::main_(argc, argv); }
