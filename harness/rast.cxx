// P43 derivative filters and filtering image iterators of the cell image library
#include "pbt.hxx"
#include <vigra/stdimage.hxx>
#include <vigra/rgbvalue.hxx>
#include <vigra/diff2d.hxx>
#include <vigra/utilities.hxx>
#include <cmath>
#include <vector>
#include <sstream>
#include <iostream>
#include "gradient.hxx"
#include "hessematrix.hxx"
#include "imagefilteriterator.hxx"
#include "crop.hxx"
using namespace vigra;
typedef std::vector<std::vector<double>> A;     // A[y][x]

static A mk(int w, int h) { return A(h, std::vector<double>(w, 0.)); }
// symmetric difference, borders repeated
static A dX(A const &a) { A r = a; int w = a[0].size(); for(size_t y = 0; y < a.size(); ++y) for(int x = 0; x < w; ++x) r[y][x] = (a[y][std::min(x + 1, w - 1)] - a[y][std::max(x - 1, 0)]) / 2; return r; }
static A dY(A const &a) { A r = a; int h = a.size(); for(int y = 0; y < h; ++y) for(size_t x = 0; x < a[0].size(); ++x) r[y][x] = (a[std::min(y + 1, h - 1)][x] - a[std::max(y - 1, 0)][x]) / 2; return r; }

template <class T> static A fill(pbt::Ctx &g, BasicImage<T> &im, int step)
{
    int w = g.i(2, 9), h = g.i(2, 9); im.resize(w, h);
    int range = g.pick(std::vector<int>{2, 5, 100, 4000}), kind = g.u(4); A a = mk(w, h);
    int c0 = g.i(-3, 3), c1 = g.i(-3, 3), c2 = g.i(-3, 3);
    g.text << w << "x" << h << ": ";
    for(int y = 0; y < h; ++y) { for(int x = 0; x < w; ++x) { int v = kind ? g.i(-range, range) : c0*x*x + c1*x*y + c2*y*y; a[y][x] = step * v; im(x, y) = (T)(step * v); g.text << step * v << ","; } g.text << "; "; }
    g.text << "\n";
    return a;
}
template <class I> static void compare(I const &im, A const &a, const char *what, double tol)
{
    REQUIRE(im.width() == (int)a[0].size() && im.height() == (int)a.size(), what << ": size");
    for(int y = 0; y < im.height(); ++y) for(int x = 0; x < im.width(); ++x)
        REQUIRE(std::abs(im(x, y) - a[y][x]) <= tol * (1 + std::abs(a[y][x])), what << " at " << x << "," << y << ": " << im(x, y) << " instead of " << a[y][x]);
}

template <class T> static void filters(pbt::Ctx &g, double tol)
{
    BasicImage<T> src; A a = fill(g, src, 1); int w = src.width(), h = src.height();
    BasicImage<T> gx(w, h), gy(w, h), m(w, h), m2(w, h), e1(w, h), e2(w, h), det(w, h), orig(src);
    T junk = g.i(-3, 3); gx.init(junk); gy.init(junk); m.init(junk); m2.init(junk); e1.init(junk); e2.init(junk); det.init(junk);
    gradient(srcImageRange(src), destImage(gx), destImage(gy));
    A x = dX(a), y = dY(a), mag = x, D = x, E1 = x, E2 = x, xx = dX(x), yy = dY(y), xy = dY(x);
    double scale = 1;
    for(int j = 0; j < h; ++j) for(int i = 0; i < w; ++i)
    {
        mag[j][i] = std::sqrt(x[j][i] * x[j][i] + y[j][i] * y[j][i]);
        D[j][i] = xx[j][i] * yy[j][i] - xy[j][i] * xy[j][i];
        double s = (xx[j][i] + yy[j][i]) / 2, d = (xx[j][i] - yy[j][i]) / 2, r = std::sqrt(d * d + xy[j][i] * xy[j][i]);
        E1[j][i] = s + r; E2[j][i] = s - r;
        scale = std::max(scale, std::max(std::abs(xx[j][i]), std::max(std::abs(yy[j][i]), std::abs(xy[j][i]))));
    }
    compare(gx, x, "x gradient", tol); compare(gy, y, "y gradient", tol);
    gradientMagnitude(srcImageRange(src), destImage(m)); compare(m, mag, "gradient magnitude", tol);
    gradientMagnitude(srcImageRange(gx), srcImage(gy), destImage(m2)); compare(m2, mag, "gradient magnitude of two images", tol);
    determinantOfHessian(srcImageRange(src), destImage(det)); compare(det, D, "determinant", tol * scale * scale);
    eigenvaluesOfHessian(srcImageRange(src), destImage(e1), destImage(e2));
    compare(e1, E1, "larger eigenvalue", tol * scale); compare(e2, E2, "smaller eigenvalue", tol * scale);
    for(int j = 0; j < h; ++j) for(int i = 0; i < w; ++i) REQUIRE(src(i, j) == orig(i, j), "the source changed");
    // a part of the image only
    if(w > 2 && h > 2)
    {
        int x0 = g.u(w - 2), y0 = g.u(h - 2), x1 = g.i(x0 + 2, w), y1 = g.i(y0 + 2, h); Rect2D r(x0, y0, x1, y1);
        g.text << "part " << x0 << "," << y0 << "-" << x1 << "," << y1 << "\n";
        A p = mk(x1 - x0, y1 - y0); for(int j = y0; j < y1; ++j) for(int i = x0; i < x1; ++i) p[j - y0][i - x0] = a[j][i];
        T mark = 12345; m.init(mark);
        gradientMagnitude(crop(srcImageRange(src), r), crop(destImage(m), r));
        A px = dX(p), py = dY(p), all = mk(w, h);
        for(int j = 0; j < h; ++j) for(int i = 0; i < w; ++i)
            all[j][i] = i >= x0 && i < x1 && j >= y0 && j < y1 ? std::sqrt(px[j-y0][i-x0] * px[j-y0][i-x0] + py[j-y0][i-x0] * py[j-y0][i-x0]) : mark;
        compare(m, all, "gradient magnitude of a part", tol);
    }
    g.nontrivial(w >= 4 && h >= 4);
}

static void colors(pbt::Ctx &g)
{
    FImage c[3]; A a[3]; a[0] = fill(g, c[0], 1); int w = c[0].width(), h = c[0].height();
    for(int k = 1; k < 3; ++k) { c[k].resize(w, h); a[k] = mk(w, h); for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) { c[k](x, y) = a[k][y][x] = g.i(-20, 20); g.text << a[k][y][x] << ","; } }
    BasicImage<RGBValue<float>> src(w, h), gx(w, h), gy(w, h); FImage m(w, h); A mag = mk(w, h);
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) src(x, y) = RGBValue<float>(c[0](x, y), c[1](x, y), c[2](x, y));
    gradient(srcImageRange(src), destImage(gx), destImage(gy));
    for(int k = 0; k < 3; ++k)
    {
        A dx = dX(a[k]), dy = dY(a[k]);
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x)
        {
            REQUIRE(std::abs(gx(x, y)[k] - dx[y][x]) < 1e-3 && std::abs(gy(x, y)[k] - dy[y][x]) < 1e-3, "gradient of channel " << k << " at " << x << "," << y);
            mag[y][x] += dx[y][x] * dx[y][x] + dy[y][x] * dy[y][x];
        }
    }
    for(auto &r : mag) for(auto &v : r) v = std::sqrt(v);
    gradientMagnitude(srcImageRange(gx), srcImage(gy), destImage(m)); compare(m, mag, "color gradient magnitude", 1e-4);
    g.nontrivial(w >= 4 && h >= 4);
}

static void integers(pbt::Ctx &g)
{   // results of integer images are exact for even differences; magnitudes are truncated
    IImage src; A a = fill(g, src, 2); int w = src.width(), h = src.height(); IImage gx(w, h), gy(w, h), m(w, h);
    gradient(srcImageRange(src), destImage(gx), destImage(gy));
    A x = dX(a), y = dY(a), mag = x;
    compare(gx, x, "x gradient (int)", 0); compare(gy, y, "y gradient (int)", 0);
    for(int j = 0; j < h; ++j) for(int i = 0; i < w; ++i) mag[j][i] = std::floor(std::sqrt(x[j][i] * x[j][i] + y[j][i] * y[j][i]));
    gradientMagnitude(srcImageRange(src), destImage(m)); compare(m, mag, "gradient magnitude (int)", 0);
    g.nontrivial(w >= 4 && h >= 4);
}

struct Wanted { int mask; Wanted(int m = 0) : mask(m) {} bool operator()(int v) const { return (v & mask) != 0; } };
static void iterators(pbt::Ctx &g)
{
    int w = g.i(1, 8), h = g.i(1, 8), dens = g.u(5);
    IImage im(w, h); g.text << w << "x" << h << ": ";
    for(int y = 0; y < h; ++y) { for(int x = 0; x < w; ++x) { im(x, y) = 4 * (y * w + x) + (g.u(4) < dens ? 1 : 0) + (g.p(1, 2) ? 2 : 0); g.text << (im(x, y) & 3); } g.text << ";"; }
    int x0 = g.u(w), y0 = g.u(h), x1 = g.i(x0 + 1, w), y1 = g.i(y0 + 1, h); if(g.p(1, 2)) { x0 = y0 = 0; x1 = w; y1 = h; }
    int mask = g.i(1, 2);
    g.text << " mask " << mask << " part " << x0 << "," << y0 << "-" << x1 << "," << y1 << "\n";
    std::vector<int> want;
    for(int y = y0; y < y1; ++y) for(int x = x0; x < x1; ++x) if(im(x, y) & mask) want.push_back(im(x, y));
    typedef ImageFilterIterator<Wanted, IImage::traverser> It;
    bool viaTriple = g.p(1, 2), post = g.p(1, 2);
    IImage::traverser ul = im.upperLeft() + Diff2D(x0, y0), lr = im.upperLeft() + Diff2D(x1, y1);
    It it = viaTriple ? It(crop(destImageRange(im), Rect2D(x0, y0, x1, y1)), Wanted(mask)) : It(ul, lr, IImage::Accessor(), Wanted(mask));
    It end(lr, lr, IImage::Accessor(), Wanted(mask));
    for(size_t k = 0; k < want.size(); ++k)
    {
        REQUIRE(it.inRange() && !it.atEnd() && it != lr && !(it == lr) && it != end && !(it == end), "ends after " << k << " of " << want.size() << " pixels");
        REQUIRE(*it == want[k], "pixel " << k << " is " << *it / 4 << " instead of " << want[k] / 4);
        if(k == 1 && g.p(1, 4)) { It c(it); REQUIRE(c == it, "copy"); ++c; REQUIRE(*it == want[k] && c != it, "a copy moved the iterator"); *it = want[k]; }
        if(post) { It old = it++; REQUIRE(*old == want[k], "it++ does not return the old position"); } else REQUIRE(&++it == &it, "++it");
    }
    REQUIRE(!it.inRange() && it.atEnd() && it == lr && !(it != lr) && it == end && !(it != end), "does not end after " << want.size() << " pixels");
    g.nontrivial(want.size() >= 2 && w * h > 4);
    g.classify("none", want.empty());
}

PROP(P43, "images of at least 4x4 pixels, or at least two selected pixels")
{
    switch(g.u(5))
    {
      case 0: g.classify("float"); filters<float>(g, 1e-5); break;
      case 1: g.classify("double"); filters<double>(g, 1e-12); break;
      case 2: g.classify("colors"); colors(g); break;
      case 3: g.classify("integers"); integers(g); break;
      default: g.classify("iterator"); iterators(g);
    }
}
int main(int argc, char **argv) { return pbt::main_(argc, argv); }
