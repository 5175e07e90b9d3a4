// P27 critical points and flow lines of spline images, P34 other critical point searches, oversampling
// (findCriticalPointsInFacet is unused and documented to miss points: not checked)
#include "pbt.hxx"
#include <vigra/stdimage.hxx>
#include <vigra/impex.hxx>
#include <vigra/splineimageview.hxx>
#include <cmath>
#include <vector>
#include <sstream>
#include <iostream>
#include <set>
#include <array>
static bool DEBUG = false;
#include "vigra/subpixel_watershed.hxx"
#include "vigra/oversampling.hxx"
using namespace vigra;
typedef TinyVector<double, 2> P2;

struct Quiet { std::streambuf *b; std::ostringstream s; Quiet() { b = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cerr.rdbuf(b); } };

template <class T> static void makeImage(pbt::Ctx &g, BasicImage<T> &im, int minSize)
{
    int w = g.i(minSize, minSize + 4), h = g.i(minSize, minSize + 4);
    im.resize(w, h);
    int kind = g.u(4);
    g.text << w << "x" << h << " ";
    if(kind == 0)       // random values
    {
        int n = g.pick(std::vector<int>{2, 4, 16, 256});
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) im(x, y) = g.u(n);
        g.classify("noise");
    }
    else                // blobs or waves
    {
        int n = 1 + g.u(5);
        std::vector<std::array<double, 5>> b;
        for(int i = 0; i < n; ++i) b.push_back({g.u(4 * w) / 4., g.u(4 * h) / 4., (4 + g.u(20)) / 4., double(g.i(-8, 8)), (2 + g.u(12)) / 4.});
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x)
        {
            double v = 0;
            for(auto &k : b)
                if(kind < 3) v += k[3] * std::exp(-((x - k[0]) * (x - k[0]) / (2 * k[2]) + (y - k[1]) * (y - k[1]) / (2 * k[4])));
                else v += k[3] * std::cos((x - k[0]) * 1.3 / k[2] + (y - k[1]) * 1.1 / k[4]);
            im(x, y) = v;
        }
        g.classify(kind < 3 ? "blobs" : "waves");
    }
    for(int y = 0; y < h; ++y) { for(int x = 0; x < w; ++x) g.text << im(x, y) << (x + 1 < w ? "," : ";"); }
    g.text << "\n";
}

struct H { double x, y, xx, xy, yy; double det() const { return xx * yy - xy * xy; } double norm() const { return std::max(std::abs(xx), std::max(std::abs(xy), std::abs(yy))); }
    double mineig() const { double t = xx + yy, d = std::sqrt((xx - yy) * (xx - yy) + 4 * xy * xy); return std::min(std::abs(t + d), std::abs(t - d)) / 2; }
    int type() const { return det() < 0 ? Saddle : xx + yy > 0 ? Minimum : Maximum; } };
template <class V> static H deriv(V const &v, double x, double y) { H h = { (double)v.dx(x, y), (double)v.dy(x, y), (double)v.dxx(x, y), (double)v.dxy(x, y), (double)v.dyy(x, y) }; return h; }

template <class V> static bool newton(V const &v, int w, int h, double range, double x0, double y0, double &x, double &y)
{
    x = x0; y = y0;
    for(int it = 0; it < 20; ++it)
    {
        if(it && (x < .01 || y < .01 || x > w - 1.01 || y > h - 1.01)) return false;
        if(std::hypot(x - x0, y - y0) > 1.95) return false;
        H d = deriv(v, x, y);
        if(d.mineig() < .02 * range) return false;
        double sx = (d.xy * d.y - d.yy * d.x) / d.det(), sy = (d.xy * d.x - d.xx * d.y) / d.det();
        x += sx; y += sy;
        if(std::hypot(sx, sy) < 1e-5) return x > .01 && y > .01 && x < w - 1.01 && y < h - 1.01 && std::hypot(x - x0, y - y0) < 1.95;
    }
    return false;
}
template <class V, class T, int ORDER> static void spwsCase(pbt::Ctx &g)
{
    BasicImage<T> im; makeImage(g, im, ORDER == 5 ? 8 : 6);
    int w = im.width(), h = im.height();
    double lo = 1e300, hi = -1e300; for(auto &v : im) { lo = std::min<double>(lo, v); hi = std::max<double>(hi, v); }
    double range = std::max(hi - lo, 1e-3), mag = std::max(std::abs(hi), std::abs(lo));
    SubPixelWatersheds<V> s(srcImageRange(im));
    s.minCPDist_ = g.pick(std::vector<double>{1e-3, 1e-3, 0.05, 0.5});
    s.cpOversampling_ = g.pick(std::vector<unsigned>{2, 1, 3});
    bool masked = g.p(1, 3);
    BasicImage<unsigned char> mask(w, h);
    mask.init(1);
    if(masked && g.u(2)) { int k = g.u(4); for(auto &m : mask) m = g.u(4) < (unsigned)k; }
    else if(masked)
    {   // a rectangle, often a single row or column at the border
        int x0 = g.p(1,3) ? w-1 : g.u(w), y0 = g.p(1,3) ? h-1 : g.u(h), x1 = g.u(2) ? x0 : g.i(x0, w-1), y1 = g.u(2) ? y0 : g.i(y0, h-1);
        if(g.p(1,3)) { y0 = 0; y1 = h-1; } else if(g.p(1,2)) { x0 = 0; x1 = w-1; }
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) mask(x, y) = x >= x0 && x <= x1 && y >= y0 && y <= y1;
    }
    Quiet q;
    if(masked) s.findCriticalPoints(srcImage(mask)); else s.findCriticalPoints();
    if(g.p(1, 4)) { if(masked) s.findCriticalPoints(srcImage(mask)); else s.findCriticalPoints(); }   // again: no duplicates
    struct CP { P2 p; int type; };
    std::vector<CP> cps;
    REQUIRE(s.minima_.size() && s.maxima_.size() && s.saddles_.size(), "lists are not 1-based");
    for(unsigned i = 1; i < s.minima_.size(); ++i) cps.push_back({s.minima_[i], Minimum});
    for(unsigned i = 1; i < s.saddles_.size(); ++i) cps.push_back({s.saddles_[i], Saddle});
    for(unsigned i = 1; i < s.maxima_.size(); ++i) cps.push_back({s.maxima_[i], Maximum});
    V const &v = s.image_;
    auto facetDist = [&](double x, double y) { double a = std::abs(x - std::floor(x) - .5), b = std::abs(y - std::floor(y) - .5); return std::min(a, b); };
    double noise = (sizeof(T) == 4 ? 3e-6 : 1e-12) * (mag + range);
    unsigned strong = 0;
    for(auto &c : cps)
    {
        H d = deriv(v, c.p[0], c.p[1]);
        REQUIRE(c.p[0] >= -1e-4 && c.p[0] <= w - 1 + 1e-4 && c.p[1] >= -1e-4 && c.p[1] <= h - 1 + 1e-4, "critical point " << c.p << " outside");
        REQUIRE(std::hypot(d.x, d.y) <= 5e-4 * d.norm() + 1e-4 * range * (ORDER == 2) + noise + 1e-5 * range, "gradient at critical point " << c.p << " is " << d.x << "," << d.y << " hessian " << d.xx << " " << d.xy << " " << d.yy);
        bool clear = d.mineig() > .01 * range && (ORDER > 2 || facetDist(c.p[0], c.p[1]) > 1e-3);
        if(clear) { ++strong; REQUIRE(d.type() == c.type, "critical point " << c.p << " reported as type " << c.type << " but hessian " << d.xx << " " << d.xy << " " << d.yy); }
        for(auto &o : cps) if(&o != &c) REQUIRE((o.p - c.p).magnitude() >= s.minCPDist_ * (1 - 1e-9), "critical points " << c.p << " and " << o.p << " too close");
        if(masked)
        {
            double best = 1e9;
            for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) if(mask(x, y))
                for(double dy = 0; dy < 1; dy += 1. / s.cpOversampling_) for(double dx = 0; dx < 1; dx += 1. / s.cpOversampling_)
                    best = std::min(best, std::hypot(x + dx - c.p[0], y + dy - c.p[1]));
            REQUIRE(best <= 2.001, "critical point " << c.p << " is far from the mask");
        }
    }
    // completeness
    unsigned starts = 0, sub = g.u(3);
    for(int yi = 0; yi < h; ++yi) for(int xi = 0; xi < w; ++xi) if(mask(xi, yi))
        for(unsigned oy = 0; oy < s.cpOversampling_; ++oy) for(unsigned ox = 0; ox < s.cpOversampling_; ++ox)
        {
            double x0 = xi + ox / (double)s.cpOversampling_, y0 = yi + oy / (double)s.cpOversampling_, x = -1, y = -1;
            if(((xi * 7 + yi * 3 + ox + oy * 5) % 3) != sub) continue;
            bool ok = true;
            // (must not depend on rounding: neighbouring starting points converge as well)
            for(int k = 0; k < 3 && ok; ++k) { double a, b; ok = newton(v, w, h, range, x0 + (k == 1 ? 2e-3 : 0), y0 + (k == 2 ? 2e-3 : 0), a, b); if(!k) { x = a; y = b; } else ok = ok && std::hypot(a - x, b - y) < 1e-4; }
            if(!ok) continue;
            H d = deriv(v, x, y);
            if(d.mineig() < .02 * range || (ORDER == 2 && facetDist(x, y) < 1e-3)) continue;
            ++starts;
            bool found = false;
            for(auto &c : cps) if(std::hypot(c.p[0] - x, c.p[1] - y) <= s.minCPDist_ + 1e-4 && (s.minCPDist_ > .01 || c.type == d.type())) found = true;
            REQUIRE(found, "critical point " << x << "," << y << " of type " << d.type() << " (reached from " << x0 << "," << y0 << ") was not reported");
        }
    // nearestMaximum
    auto maxima = s.maxima_;
    std::map<std::pair<int, int>, int> perFacet;
    auto facet = [](P2 const &p) { return std::make_pair((int)std::floor(p[0] + .5), (int)std::floor(p[1] + .5)); };
    for(unsigned i = 1; i < maxima.size(); ++i) ++perFacet[facet(maxima[i])];
    bool added = g.p(1, 2);
    if(added)
    {   // further maxima, up to two around a pixel
        for(int k = g.i(1, 6); k > 0; --k)
        {
            P2 p(g.u(8 * w - 7) / 8., g.u(8 * h - 7) / 8.);
            if(g.p(1, 2) && s.maxima_.size() > 1) { P2 o = s.maxima_[1 + g.u(s.maxima_.size() - 1)]; p = P2(std::min(w - 1., std::max(0., o[0] + g.i(-4, 4) / 8.)), std::min(h - 1., std::max(0., o[1] + g.i(-4, 4) / 8.))); }
            if(perFacet[facet(p)] >= 2) continue;
            ++perFacet[facet(p)]; s.maxima_.push_back(p); g.text << "additional maximum " << p << "\n";
        }
        auto all = s.maxima_;
        s.updateMaxImage();
        auto lt = [](P2 const &a, P2 const &b) { return a[0] < b[0] || (a[0] == b[0] && a[1] < b[1]); };
        auto now = s.maxima_; std::sort(all.begin() + 1, all.end(), lt); std::sort(now.begin() + 1, now.end(), lt);
        REQUIRE(all == now, "updateMaxImage changed the set of maxima");
    }
    bool two = false, many = false; for(auto &f : perFacet) { two = two || f.second == 2; many = many || f.second > 2; }
    g.classify("two maxima in a facet", two);
    if(!many) for(int k = g.u(6); k > 0 && s.maxima_.size() > 1; --k)
    {
        P2 m = s.maxima_[1 + g.u(s.maxima_.size() - 1)];
        double x = m[0] + g.i(-16, 16) / 32., y = m[1] + g.i(-16, 16) / 32., dx = g.i(-3, 3), dy = g.i(-3, 3);
        if(!v.isInside(x, y)) continue;
        int idx = -7; double got = s.nearestMaximum(x, y, dx, dy, idx), best = 1e300;
        for(unsigned i = 1; i < s.maxima_.size(); ++i) { P2 d = s.maxima_[i] - P2(x, y); if(d[0] * dx + d[1] * dy >= 0) best = std::min(best, d.magnitude()); }
        g.text << "nearestMaximum(" << x << "," << y << "," << dx << "," << dy << ")\n";
        if(best < .499)
        {
            REQUIRE(got == best, "nearestMaximum: distance " << got << " instead of " << best);
            REQUIRE(idx > 0 && idx < (int)s.maxima_.size() && (s.maxima_[idx] - P2(x, y)).magnitude() == best, "nearestMaximum: index " << idx);
        }
        else REQUIRE(got >= best, "nearestMaximum: distance " << got << " less than " << best);
    }
    if(added) { s.maxima_ = maxima; s.updateMaxImage(); }
    // flow lines
    s.initialStep_ = g.pick(std::vector<double>{.1, .1, .05});
    unsigned traced = 0, steps = 0, astray = 0, robust = 0;
    for(unsigned i = 1; i < s.saddles_.size() && i < 5; ++i)
    {
        P2 p = s.saddles_[i];
        typename SubPixelWatersheds<V>::PointArray c[2], e;
        int idx[2];
        for(int k = 0; k < 2; ++k) idx[k] = s.flowLine(p[0], p[1], k == 0, 1e-4, c[k]);
        std::pair<int, int> r = s.findEdge(p[0], p[1], 1e-4, e);
        REQUIRE(r.first == idx[0] && r.second == idx[1], "findEdge: end points");
        REQUIRE(e.size() == c[0].size() + c[1].size() - 1, "findEdge: number of points");
        for(unsigned j = 0; j < e.size(); ++j) { P2 want = j < c[0].size() ? c[0][c[0].size() - 1 - j] : c[1][j - c[0].size() + 1]; REQUIRE(e[j] == want, "findEdge: point " << j); }
        H d = deriv(v, p[0], p[1]);
        for(int k = 0; k < 2; ++k)
        {
            ++traced;
            REQUIRE(c[k].size() >= 2 && c[k][0] == p, "flow line does not start at the saddle");
            REQUIRE(idx[k] < (int)s.maxima_.size() && (idx[k] > 0 || idx[k] == 0 || idx[k] == -1 || idx[k] == -3 || idx[k] == -4), "flow line: result " << idx[k]);
            if(idx[k] > 0) { REQUIRE(c[k].back() == s.maxima_[idx[k]], "flow line does not end at the maximum"); g.classify("reached a maximum"); }
            else g.classify("gave up");
            for(unsigned j = 1; j < c[k].size(); ++j)
            {
                P2 a = c[k][j - 1], b = c[k][j];
                double step = (b - a).magnitude();
                bool last = idx[k] > 0 && j + 1 == c[k].size();
                if(j > 1) REQUIRE(v.isValid(b[0], b[1]), "flow line leaves the image at " << b);
                REQUIRE(step <= (last ? s.initialStep_ : j == 1 ? s.initialStep_ * 1.000001 : 2.7), "flow line: step of " << step << " at " << j << "/" << c[k].size());
                if(j > 1 && !last && step > 1e-9 && step < .5 && c[k].size() < 2000)
                {   // steepest ascent from a over the same arc length
                    double x = a[0], y = a[1]; int n = 40; bool ok = true;
                    for(int q = 0; q < n && ok; ++q)
                    {
                        double px = x, py = y;
                        for(int o = 0; o < 2 && ok; ++o)
                        {
                            ok = v.isInside(px, py); if(!ok) break;
                            double gx = v.dx(px, py), gy = v.dy(px, py), l = std::hypot(gx, gy);
                            ok = l > 1e-3 * range + 10 * noise; if(!ok) break;
                            px = x + (o + 1) * .5 * step / n * gx / l; py = y + (o + 1) * .5 * step / n * gy / l;
                        }
                        x = px; y = py;
                    }
                    if(ok) { ++steps; astray += std::hypot(x - b[0], y - b[1]) > 3e-3 + .02 * step; }
                }
                if(j > 1)
                    REQUIRE(v(b[0], b[1]) >= v(a[0], a[1]) - noise * 10 - 1e-3 * range, "flow line descends from " << v(a[0], a[1]) << " to " << v(b[0], b[1]) << " at " << j << "/" << c[k].size() << " step " << step << " " << a << b << " result " << idx[k]);
            }
        }
        // lines from which steepest ascent leads robustly to a maximum reach it
        for(int k = 0; k < 2; ++k)
        {
            if(idx[k] > 0 && c[k].size() < 3) continue;
            int want = -1;
            P2 f = c[k][1] - p; f /= f.magnitude();
            for(int t = -1; t <= 1 && want; ++t)
            {
                double x = c[k][1][0] - f[1] * t * .01, y = c[k][1][1] + f[0] * t * .01, h0 = .02; int got = 0;
                for(int n = 0; n < 1000; ++n)
                {
                    if(x < .2 || y < .2 || x > w - 1.2 || y > h - 1.2) break;
                    int near = 0; double dist = .8 * s.initialStep_;
                    for(unsigned q = 1; q < s.maxima_.size(); ++q) { double e = std::hypot(s.maxima_[q][0] - x, s.maxima_[q][1] - y); if(e < dist) { dist = e; near = q; } }
                    if(near) { got = near; break; }
                    double gx = v.dx(x, y), gy = v.dy(x, y), l = std::hypot(gx, gy);
                    if(l < 2e-3 * range + 10 * noise) break;
                    double mx = x + .5 * h0 * gx / l, my = y + .5 * h0 * gy / l;
                    gx = v.dx(mx, my); gy = v.dy(mx, my); l = std::hypot(gx, gy); if(!l) break;
                    x += h0 * gx / l; y += h0 * gy / l;
                }
                if(want < 0) want = got; else if(want != got) want = 0;
            }
            if(want > 0) { ++robust; REQUIRE(idx[k] == want, "steepest ascent from " << c[k][1] << " leads to maximum " << want << " at " << s.maxima_[want] << ", but the flow line ends with result " << idx[k] << " at " << c[k].back()); }
        }
        if(d.det() < 0 && (c[0].size() > 2 || idx[0] <= 0) && (c[1].size() > 2 || idx[1] <= 0))
        {
            P2 a = c[0][1] - p, b = c[1][1] - p;
            REQUIRE((a + b).magnitude() < 1e-9 && std::abs(a.magnitude() - s.initialStep_) < 1e-9, "the two flow lines of a saddle do not start in opposite directions");
            double q = d.xx * a[0] * a[0] + 2 * d.xy * a[0] * a[1] + d.yy * a[1] * a[1];
            
            if(d.mineig() > .01 * range)
            {
                double cr = std::abs((d.xx * a[0] + d.xy * a[1]) * a[1] - (d.xy * a[0] + d.yy * a[1]) * a[0]) / (s.initialStep_ * s.initialStep_);
                REQUIRE(cr < 1e-3 * d.norm() + 10 * noise, "flow line does not start along the ascending eigenvector: " << a << " at Hessian " << d.xx << " " << d.xy << " " << d.yy);
            }
        }
    }
    REQUIRE(astray <= 3 + steps / 20, astray << " of " << steps << " steps of flow lines do not follow the steepest ascent");
    g.classify("flow line steps checked", steps > 0);
    g.classify("flow lines that must reach a maximum", robust > 0);
    g.nontrivial(strong > 0 && starts > 0);
}
PROP(P27, "at least one well-conditioned critical point was reported and at least one starting point converges to one")
{
    switch(g.u(4))
    {
        case 0: g.classify("order 3"); spwsCase<SplineImageView<3, float>, float, 3>(g); break;
        case 1: g.classify("order 5"); spwsCase<SplineImageView<5, float>, float, 5>(g); break;
        case 2: g.classify("order 2"); spwsCase<SplineImageView<2, float>, float, 2>(g); break;
        case 3: g.classify("order 3, double"); spwsCase<SplineImageView<3, double>, double, 3>(g); break;
    }
}

/********************************************************************/
/*                              P34                                 */
/********************************************************************/
typedef std::vector<P2> Pts;
static std::multiset<std::pair<double,double>> asSet(Pts const &p) { std::multiset<std::pair<double,double>> r; for(auto &x : p) r.insert({x[0], x[1]}); return r; }
static std::string show(Pts const &p) { std::ostringstream s; for(auto &x : p) s << x << " "; return s.str(); }
static void pixelCase(pbt::Ctx &g)
{
    int w = g.i(1, 8), h = g.i(1, 8), n = g.pick(std::vector<int>{2, 3, 5, 100});
    FImage im(w, h); for(auto &v : im) v = g.u(n) - n / 2;
    g.text << w << "x" << h << " "; for(int y = 0; y < h; ++y) { for(int x = 0; x < w; ++x) g.text << im(x, y) << (x + 1 < w ? "," : ";"); }
    bool eight = g.p(1, 2), linear = g.p(1, 2);
    Pts got[3], want[3];
    auto sgn = [](double v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
    static const int dx[] = {1, 1, 0, -1, -1, -1, 0, 1}, dy[] = {0, -1, -1, -1, 0, 1, 1, 1};
    if(!linear)
    {
        g.classify(eight ? "8-neighbourhood" : "4-neighbourhood");
        findCriticalPoints48Neighborhood(srcImageRange(im), got, got + 1, got + 2, eight);
        for(int y = 1; y < h - 1; ++y) for(int x = 1; x < w - 1; ++x)
        {
            std::vector<int> s; bool zero = false;
            for(int k = 0; k < 8; k += eight ? 1 : 2) { int q = sgn(im(x, y) - im(x + dx[k], y + dy[k])); if(q) s.push_back(q); else zero = true; }
            if(s.empty()) continue;
            int changes = 0; for(unsigned k = 0; k < s.size(); ++k) changes += s[k] != s[(k + 1) % s.size()];
            if(changes >= 4) want[1].push_back(P2(x, y));
            else if(!changes && !zero) want[s[0] < 0 ? 0 : 2].push_back(P2(x, y));
        }
    }
    else
    {
        g.classify("linear interpolation");
        findCriticalPointsLinearInterpolation(srcImageRange(im), got, got + 1, got + 2);
        for(int y = 1; y < h - 1; ++y) for(int x = 1; x < w - 1; ++x)
        {
            int s[4]; bool zero = false; for(int k = 0; k < 4; ++k) { s[k] = sgn(im(x, y) - im(x + dx[2 * k], y + dy[2 * k])); zero |= !s[k]; }
            if(!zero)
            {
                int sum = s[0] + s[1] + s[2] + s[3];
                if(sum == 4) want[2].push_back(P2(x, y)); else if(sum == -4) want[0].push_back(P2(x, y));
                else if(s[0] == s[2] && s[1] == s[3]) want[1].push_back(P2(x, y));
            }
            if(x < w - 2 && y < h - 2)
            {
                double a = im(x, y), b = im(x + 1, y), c = im(x, y + 1), d = im(x + 1, y + 1);
                if(std::min(a, d) > std::max(b, c) || std::max(a, d) < std::min(b, c))
                {
                    // f(s,t) = a + (b-a) s + (c-a) t + (a-b-c+d) s t
                    double q = a - b - c + d; want[1].push_back(P2(x + (a - c) / q, y + (a - b) / q));
                }
            }
        }
    }
    unsigned total = 0;
    for(int k = 0; k < 3; ++k)
    {
        total += want[k].size();
        bool ok = got[k].size() == want[k].size();
        for(auto &p : want[k]) { bool f = false; for(auto &q : got[k]) f |= (p - q).magnitude() < 1e-5; ok = ok && f; }
        REQUIRE(ok, (k == 0 ? "minima " : k == 1 ? "saddles " : "maxima ") << show(got[k]) << " instead of " << show(want[k]));
    }
    g.nontrivial(total > 0);
}
static void directedCase(pbt::Ctx &g)
{
    DImage im; makeImage(g, im, 8);
    int w = im.width(), h = im.height();
    double lo = 1e300, hi = -1e300; for(auto &v : im) { lo = std::min<double>(lo, v); hi = std::max<double>(hi, v); }
    double range = std::max(hi - lo, 1e-3);
    SplineImageView<3, double> v(srcImageRange(im));
    unsigned found = 0;
    for(int k = 0; k < 12; ++k)
    {
        double x = 1 + g.u(8 * (w - 3)) / 8., y = 1 + g.u(8 * (h - 3)) / 8., nx = g.i(-4, 4), ny = g.i(-4, 4), maxDist = g.pick(std::vector<double>{1, .5, 2}), xx = 0, yy = 0;
        if(!nx && !ny) nx = 1;
        bool r = findDirectedMaximum(v, x, y, nx, ny, &xx, &yy, 1e-4, maxDist);
        double n = std::hypot(nx, ny), ux = nx / n, uy = ny / n;
        std::ostringstream what; what << "findDirectedMaximum(" << x << "," << y << ", direction " << nx << "," << ny << ", maxDist " << maxDist << ") = " << r << " at " << xx << "," << yy << ": ";
        if(r)
        {
            H d = deriv(v, xx, yy);
            REQUIRE(std::abs((xx - x) * uy - (yy - y) * ux) < 1e-6, what.str() << "not on the line");
            REQUIRE(xx >= 1 && yy >= 1 && xx <= w - 2 && yy <= h - 2, what.str() << "outside");
            REQUIRE(std::hypot(xx - x, yy - y) <= maxDist + 1e-4, what.str() << "too far");
            double d1 = d.x * ux + d.y * uy, d2 = d.xx * ux * ux + 2 * d.xy * ux * uy + d.yy * uy * uy;
            REQUIRE(std::abs(d1) < 1e-3 * range, what.str() << "derivative " << d1);
            REQUIRE(d2 < 1e-3 * range && d.xx + d.yy < 1e-3 * range, what.str() << "not a maximum " << d2);
            ++found;
        }
        // Newton iteration along the line, from two neighbouring points
        bool ok = true; double res[2];
        for(int q = 0; q < 2 && ok; ++q)
        {
            double t = q * 1e-3; ok = false;
            for(int it = 0; it < 20; ++it)
            {
                double px = x + t * ux, py = y + t * uy;
                if((it && (px < 1.01 || py < 1.01 || px > w - 2.01 || py > h - 2.01)) || std::abs(t) > maxDist - .01) break;
                H d = deriv(v, px, py);
                double d1 = d.x * ux + d.y * uy, d2 = d.xx * ux * ux + 2 * d.xy * ux * uy + d.yy * uy * uy;
                if(std::abs(d2) < .02 * range) break;
                t -= d1 / d2;
                if(std::abs(d1 / d2) < 1e-5) { ok = d2 < -.02 * range && d.xx + d.yy < -.02 * range && std::abs(t) < maxDist - .01 && x + t * ux > 1.01 && y + t * uy > 1.01 && x + t * ux < w - 2.01 && y + t * uy < h - 2.01; res[q] = t; break; }
            }
        }
        if(ok && std::abs(res[0] - res[1]) < 1e-4)
            REQUIRE(r && std::hypot(x + res[0] * ux - xx, y + res[0] * uy - yy) < 1e-3, what.str() << "the maximum is at " << x + res[0] * ux << "," << y + res[0] * uy);
    }
    g.classify("directed maximum");
    g.nontrivial(found > 0);
}
static void overCase(pbt::Ctx &g)
{
    double scale = g.pick(std::vector<double>{0, .3, .5, 1, 1.2});
    int r = std::ceil(3 * scale), dr = scale > 0 ? r : 1, m = std::max(2 * (r + 1), 2 * dr + 1);
    int w = m + g.u(5), h = m + g.u(5), xo = g.u(2), yo = g.u(2);
    DImage im(w, h), out(2 * w - 1, 2 * h - 1); for(auto &v : im) v = g.i(-50, 50);
    g.text << w << "x" << h << " scale " << scale << " orders " << xo << "," << yo << " "; for(auto &v : im) g.text << v << " ";
    oversamplingConvolution(srcImageRange(im), destImage(out), scale, xo, yo);
    // weight of the sample at (signed) offset t (in pixels) from the position
    auto weights = [&](bool half, bool der) {
        std::vector<std::pair<double,double>> k; double sum = 0;
        int rad = der ? dr : half ? r + 1 : r;
        for(double t = half ? -rad + .5 : -rad; t <= rad; ++t)
        {
            double gauss = scale > 0 ? std::exp(-t * t / (2 * scale * scale)) : std::exp(-t * t);
            double q = der ? (scale > 0 ? t * gauss : t) : gauss;
            sum += der ? q * t : q; k.push_back({t, q});
        }
        for(auto &x : k) x.second /= sum;       // constants (resp. slopes) are reproduced
        return k; };
    auto refl = [](int i, int n) { return i < 0 ? -i : i >= n ? 2 * n - 2 - i : i; };
    for(int y = 0; y < 2 * h - 1; ++y) for(int x = 0; x < 2 * w - 1; ++x)
    {
        double s = 0;
        for(auto &a : weights(x % 2, xo)) for(auto &b : weights(y % 2, yo))
            s += a.second * b.second * im(refl((int)std::lround(x / 2. + a.first), w), refl((int)std::lround(y / 2. + b.first), h));
        REQUIRE(std::abs(s - out(x, y)) < 1e-6 * (1 + std::abs(s)), "oversampled value at " << x / 2. << "," << y / 2. << " is " << out(x, y) << " instead of " << s);
    }
    g.classify("oversampling");
    g.nontrivial(true);
}
PROP(P34, "at least one critical point (pixel-based or along a line), or an oversampled image")
{
    switch(g.u(8))
    {
        case 0: case 1: case 2: case 3: pixelCase(g); break;
        case 4: case 5: directedCase(g); break;
        default: overCase(g); break;
    }
}
int main(int argc, char **argv) { return pbt::main_(argc, argv); }
