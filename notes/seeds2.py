import sys; sys.path.insert(0,'/verif/notes')
from mkseed import seed
SHIM='''import sys, time, vigra, geomap
time.clock = time.perf_counter
def shim(ns, seen):       # the bindings were written for Python 2
    for n in dir(ns):
        c = getattr(ns, n, None)
        if isinstance(c, type) and c not in seen:
            seen.add(c)
            if hasattr(c, 'next') and not hasattr(c, '__next__'): c.__next__ = c.next
            if getattr(c, '__module__', '') == 'geomap': shim(c, seen)
shim(geomap, set())
class Queue(dict):
    def __init__(self, size=0): pass
    insert = setCost = dict.__setitem__
    def empty(self): return not self
    def top(self): v, i = min((v, i) for i, v in self.items()); return i, v
    def pop(self): r = self.top(); del self[r[0]]; return r
geomap.DynamicCostQueue = Queue
'''
CPP='src/geomap/cppmap.cxx'; HPP='src/geomap/cppmap.hxx'; PH='src/geomap/polygon.hxx'
seed('s06-assoc-order','P05',[(CPP,"""    face.pixelArea_ += pixels.size();
//     for(unsigned int i = 0; i < pixels.size(); ++i)
//         pixelBounds_ |= pixels[i];
    associatePixelsHook(face, pixels);""","""    associatePixelsHook(face, pixels);
    face.pixelArea_ += pixels.size();
//     for(unsigned int i = 0; i < pixels.size(); ++i)
//         pixelBounds_ |= pixels[i];""")],
 'an associatePixels callback that looks at the pixel area of the face',
 'inside the pixel callback, pixelArea() of the face does not count the pixels yet',
 demo_py=SHIM+'''import sys, vigra
from geomap import GeoMap, Size2D
m = GeoMap([(1,1),(1,8)], [None, (0,1,[(1,1),(1,8)]), (1,0,[(1,8),(8,8),(8,1),(1,1)]), (1,0,[(1,8),(4,6),(4,3),(1,1)])], Size2D(10,10))
m.initializeMap()
seen = []
cb = m.addAssociatePixelsCallback(lambda face, pixels: seen.append((face.label(), face.pixelArea(), len(pixels))))
f = m.mergeFaces(m.dart(3))
print(seen, f.pixelArea())
if len(seen) != 1 or seen[0][0] != f.label() or seen[0][1] != f.pixelArea() or not seen[0][2]: sys.exit(1)
''')
seed('s07-copy-sorted','P06',[(CPP,"    edgesSorted_ = other.edgesSorted_;\n\n    if(other.faces_.size())","    edgesSorted_ = (other.faces_.size() > 0);\n\n    if(other.faces_.size())")],
 'copying a graph whose edges are sorted in a way that cannot be derived from the first segments, before it is initialized',
 'the copy sorts its edges again and gets a different embedding than the original',
 demo_py=SHIM+'''import sys, copy, vigra
from geomap import GeoMap, Size2D
# three edges leave node 0 in the same direction and diverge later
def build():
    m = GeoMap([(1,5),(9,1),(9,5),(9,9)], [None, (0,1,[(1,5),(3,5),(5,5),(9,1)]), (0,3,[(1,5),(3,5),(5,5),(9,9)]), (0,2,[(1,5),(3,5),(5,5),(9,5)])], Size2D(10,10))
    m.sortEdgesEventually(stepDist=0.4, minDist=0.2)
    return m
def orbit(m): return [d.label() for d in m.dart(1).sigmaOrbit()]
m = build(); c = copy.copy(m)
a = orbit(m)
m.initializeMap(False); c.initializeMap(False)
print(a, orbit(m), orbit(c))
if orbit(m) != a or orbit(c) != a: sys.exit(1)
''')
seed('s08-merger-holes','P22',[('python/maputils/maputils.py',"                for dart in contourDarts(survivor):\n                    if dart.edge().flag(flag_constants.ALL_PROTECTION):\n                        continue\n                    cost = mcm(dart)","                for dart in survivor.contour().phiOrbit():\n                    if dart.edge().flag(flag_constants.ALL_PROTECTION):\n                        continue\n                    cost = mcm(dart)")],
 'a face with a hole is merged, and the cost of the edge around the hole depends on the changed face',
 'costs of edges on inner contours are not updated after a merge, so later merges happen in the wrong order',
 demo_py=SHIM+'''import sys, vigra
from geomap import GeoMap, Size2D
import maputils
# outer square split into a left and a right part; the right part contains a hole
m = GeoMap([(1,1),(1,9),(6,4),(4,1),(4,9)],
 [None, (3,0,[(4,1),(1,1)]), (0,1,[(1,1),(1,9)]), (1,4,[(1,9),(4,9)]), (3,4,[(4,1),(4,9)]), (3,4,[(4,1),(20,1),(20,9),(4,9)]),
  (2,2,[(6,4),(8,4),(8,6),(6,6),(6,4)])], Size2D(22,11))
m.initializeMap(False)
hole = m.dart(6); inner = hole.leftFace() if hole.leftFace().area() < 10 else hole.rightFace()
def cost(dart):
    """the larger the other face, the cheaper"""
    if not dart.leftFaceLabel() or not dart.rightFaceLabel(): return None
    return 1000 - max(dart.leftFace().area(), dart.rightFace().area())
arm = maputils.AutomaticRegionMerger(m, cost)
while m.edge(4): arm.mergeStep()
got = arm.nextCost(); want = cost(m.dart(6))
print(got, want)
if got != want: sys.exit(1)
''')
seed('s09-pickle-gaps','P19',[('src/python_bindings/cppmapmodule.cxx',"            unsigned int missingNones = (*it)->label() - len(edgeTuples);\n            for(unsigned int i = 0; i < missingNones; ++i)","            // keep the position of removed edges\n            if((*it)->label() > (unsigned)len(edgeTuples))")],
 'two successive edge labels have been removed before an existing one',
 'edges of an unpickled map have other labels than those of the pickled one',
 demo_py=SHIM+'''import sys, pickle, signal, vigra
from geomap import GeoMap, Size2D
signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(30)     # (orbits may become endless)
for gone in ([2], [2,3], [1,2,3], [3,4]):
    pts = [(1,1),(9,1),(9,9),(1,9)]
    m = GeoMap(pts, [None, (0,1,[(1,1),(9,1)]), (0,2,[(1,1),(4,3),(9,9)]), (0,2,[(1,1),(9,9)]), (0,2,[(1,1),(3,5),(9,9)]), (1,2,[(9,1),(9,9)]), (2,3,[(9,9),(1,9)])], Size2D(11,11))
    m.initializeMap(False)
    for l in gone: m.removeEdge(m.dart(l))
    r = pickle.loads(pickle.dumps(m))
    a, b = ({e.label(): [tuple(p) for p in e] for e in x.edgeIter()} for x in (m, r))
    if a != b: print(gone, sorted(a), sorted(b)); sys.exit(1)
''')
seed('s10-quantile-sorted','P28',[('src/python_bindings/statistics.cxx',"                  segments_.begin() + oldSize);\n        sorted_ = false;","                  segments_.begin() + oldSize);\n        sorted_ = sorted_ && otherStats.sorted_;")],
 'both statistics were asked for a quantile before they were merged',
 'quantiles after the merge are computed from unsorted values',
 demo_py=SHIM+'''import sys, vigra
from geomap import QuantileStatistics
a, b = QuantileStatistics(), QuantileStatistics()
for v in (5, 6, 7): a(v, 1)
for v in (1, 2, 3): b(v, 1)
a.quantile(.5), b.quantile(.5)
a.merge(b)
print([a.quantile(q) for q in (.1, .3, .5, .7, .9)])
if [a.quantile(q) for q in (.1, .3, .45, .6, .8, .95)] != [1, 2, 3, 5, 6, 7]: sys.exit(1)
''')
seed('s11-erase-bbox','P13',[(PH,"               (*pos)[1] == boundingBox_.begin()[1] ||\n               (*pos)[1] == boundingBox_.end()[1]))","               (*pos)[1] == boundingBox_.begin()[1]))")],
 'erasing the only point with the largest y coordinate after the bounding box has been computed',
 'boundingBox() stays too large',
 demo_py=SHIM+'''import sys, vigra
from geomap import Polygon
for k in range(5):
    pts = [(1,1),(3,7),(9,2),(0,3),(4,0)]
    p = Polygon(pts); p.boundingBox()
    del p[k]
    b, w = p.boundingBox(), Polygon(pts[:k] + pts[k+1:]).boundingBox()
    if tuple(b.begin()) != tuple(w.begin()) or tuple(b.end()) != tuple(w.end()):
        print(k, b, w); sys.exit(1)
''')
seed('s12-monkey-saddle','P34',[('src/geomap/vigra/subpixel_watershed.hxx',"            if(countSignChanges >= 4)","            if(countSignChanges == 4)")],
 'a pixel with six or eight sign changes among its eight neighbours (monkey saddle)',
 'such saddles are missing from the result of findCriticalPoints48Neighborhood',
 demo_cxx='''#include <vigra/stdimage.hxx>
#include "vigra/subpixel_watershed.hxx"
#include <iostream>
using namespace vigra;
int main()
{
    static const int dx[8] = {1,1,0,-1,-1,-1,0,1}, dy[8] = {0,-1,-1,-1,0,1,1,1};
    for(int code = 0; code < 256; ++code)
    {
        FImage im(3, 3); int changes = 0;
        for(int k = 0; k < 8; ++k) { im(1+dx[k], 1+dy[k]) = code & (1 << k) ? 1 : -1; changes += ((code >> k) & 1) != ((code >> ((k+1) % 8)) & 1); }
        std::vector<TinyVector<double, 2> > mi, sa, ma;
        findCriticalPoints48Neighborhood(srcImageRange(im), &mi, &sa, &ma, true);
        if((sa.size() == 1) != (changes >= 4)) { std::cerr << "configuration " << code << ": " << sa.size() << " saddles\\n"; return 1; }
    }
    return 0;
}
''', cxx_src='')
CF='-I src/cellimage -I src/geomap'; CS='src/cellimage/foureightsegmentation.cxx'
PRE='''#include <iostream>
#include "foureightsegmentation.hxx"
#include "cellpyramid.hxx"
#include "cellstatistics.hxx"
#include <vigra/stdimage.hxx>
#include <iostream>
#include <sstream>
using namespace vigra; using namespace vigra::cellimage;
typedef cellimage::GeoMap Map; typedef Map::DartTraverser Dart;
'''
seed('s13-infinite-face','P24',[('src/cellimage/foureightsegmentation.cxx',"    if(dart.leftFace().bounds.area() < dart.rightFace().bounds.area())\n        removedDart","    // keep the larger face\n    if(dart.leftFace().size < dart.rightFace().size)\n        removedDart")],
 'a second merge into the infinite face (whose size is a marker that wraps around at the first one), with an inner face larger than the first one',
 'the infinite face is removed',
 demo_cxx=PRE+'''int main()
{
    for(int side = 0; side < 2; ++side) for(int n = 8; n < 40; n += 5)
    {
        BImage im(n, n); im.init(0); for(int y = 0; y < n; ++y) im(2, y) = 1;
        Map m(srcImageRange(im), 1, CellTypeLine);
        for(bool again = true; again; )
        {
            again = false;
            for(Map::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
            {
                Dart d(it->start); if(side) d.nextAlpha();
                if((d.leftFaceLabel() && d.rightFaceLabel()) || d.leftFaceLabel() == d.rightFaceLabel()) continue;
                if(m.mergeFaces(d).label != 0 || !m.face(0).initialized()) { std::cerr << "the infinite face was removed (size " << n << ")\\n"; return 1; }
                again = true; break;
            }
        }
    }
    return 0;
}
''', cxx_flags=CF, cxx_src=CS)
seed('s14-cut-checkpoint','P25',[('src/cellimage/cellpyramid.hxx',"        checkpoints_.erase(checkpoints_.upper_bound(topLevel_.index()),\n                           checkpoints_.end());","        checkpoints_.erase(checkpoints_.upper_bound(topLevel_.index() + 1),\n                           checkpoints_.end());")],
 'cutting directly below a checkpoint, performing other operations, then going back to that level',
 'a level after the cut is reconstructed from a checkpoint of the discarded history',
 demo_cxx=PRE+'''struct NoStat
{
    template<class T> void preRemoveIsolatedNode(T const &) {} template<class T> void postRemoveIsolatedNode(T &) {}
    template<class T> void preMergeFaces(T const &) {} template<class T> void postMergeFaces(T &) {}
    template<class T> void preRemoveBridge(T const &) {} template<class T> void postRemoveBridge(T &) {}
    template<class T> void preMergeEdges(T const &) {} template<class T> void postMergeEdges(T &) {}
};
typedef CellPyramid<Map, NoStat> Pyr;
static std::string dump(Map const &m)
{ std::ostringstream o; for(int y = 0; y < m.cellImage.height(); ++y) for(int x = 0; x < m.cellImage.width(); ++x) o << (int)m.cellImage(x,y).type() << ":" << m.cellImage(x,y).label() << " "; return o.str(); }
static bool step(Pyr &p, int which)
{   // merges two inner faces; which: counts the candidates
    Map const &m = p.topLevel().segmentation(); int k = 0;
    for(Map::ConstEdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
    {
        Dart d(it->start); if(!d.leftFaceLabel() || !d.rightFaceLabel() || d.leftFaceLabel() == d.rightFaceLabel()) continue;
        if(k++ == which) { p.mergeFaces(d); return true; }
    }
    return false;
}
int main()
{
    std::streambuf *b = std::cerr.rdbuf(0);
    BImage im(41, 41); im.init(0); for(int k = 3; k < 41; k += 4) for(int j = 0; j < 41; ++j) im(k, j) = im(j, k) = 1;
    Map m(srcImageRange(im), 1, CellTypeLine);
    for(unsigned cut = 0; cut < 30; ++cut)
    {
        NoStat st; Pyr p(m, st); std::vector<std::string> lv(1, dump(p.topLevel().segmentation()));
        for(int k = 0; k < 40; ++k) { if(!step(p, 0)) return 3; if(k % 5 == 4) p.storeCheckpoint(p.topLevel()); }
        p.cutAbove(cut);
        lv.clear(); for(unsigned k = 0; k <= cut; ++k) { Pyr::Level *l = p.getLevel(k); lv.push_back(dump(l->segmentation())); delete l; }
        for(int k = 0; k < 5; ++k) { if(!step(p, 7)) return 3; lv.push_back(dump(p.topLevel().segmentation())); }
        for(unsigned k = 0; k < lv.size(); ++k) { Pyr::Level *l = p.getLevel(k); bool ok = dump(l->segmentation()) == lv[k]; delete l; if(!ok) { std::cout << "level " << k << " is wrong after cutting above " << cut << "\\n"; return 1; } }
    }
    return 0;
}
''', cxx_flags=CF, cxx_src=CS)
seed('s15-protect-chain','P42',[('src/cellimage/cellstatistics.hxx',"    while(mergedEdges_[targetLabel] != targetLabel)\n        targetLabel = mergedEdges_[targetLabel];","    if(mergedEdges_[targetLabel] != targetLabel)\n        targetLabel = mergedEdges_[targetLabel];")],
 'an edge that swallowed three or more other edges one after the other',
 'protecting the merged edge does not protect all original edges',
 demo_cxx=PRE+'''int main()
{
    std::streambuf *b = std::cerr.rdbuf(0);
    BImage im(20, 20); im.init(0); for(int k = 4; k <= 15; ++k) im(k,4) = im(k,15) = im(4,k) = im(15,k) = 1;
    im(9,3) = im(9,2) = 1;
    Map m(srcImageRange(im), 1, CellTypeVertex);
    SegmentationData sd; sd.doEdgeRethinning = false; sd.preparedOriginal_.resize(20,20); sd.gradientMagnitude_.resize(20,20); sd.edgelImage.resize(20,20);
    EdgeProtection prot(m.maxEdgeLabel() + 1); CellStatistics st(m, &sd, &prot);
    typedef CellPyramid<Map, CellStatistics> Pyr; Pyr p(m, st);
    std::vector<std::vector<unsigned> > parts(m.maxEdgeLabel() + 1); for(unsigned i = 0; i < parts.size(); ++i) parts[i].push_back(i);
    int n = 0;
    for(bool again = true; again; )
    {
        again = false; Map const &s = p.topLevel().segmentation();
        for(Map::ConstEdgeIterator it = s.edgesBegin(); it.inRange() && !again; ++it)
            for(int e = 0; e < 2 && !again; ++e)
            {
                Dart d(e ? it->end : it->start), o(d); o.nextSigma();
                if(s.node(d.startNodeLabel()).degree != 2 || o.edgeLabel() == d.edgeLabel() || !d.leftFaceLabel() || !d.rightFaceLabel()) continue;
                unsigned a = d.edgeLabel(), c = o.edgeLabel(), r = p.mergeEdges(d).label, x = r == a ? c : a;
                parts[r].insert(parts[r].end(), parts[x].begin(), parts[x].end()); again = true; ++n;
            }
    }
    if(n < 3) { std::cout << n << " merges\\n"; return 3; }
    Map const &s = p.topLevel().segmentation();
    for(Map::ConstEdgeIterator it = s.edgesBegin(); it.inRange(); ++it)
    {
        p.topLevel().cellStatistics().protectEdge(it->label, EPManual);
        for(unsigned i = 0; i < parts[it->label].size(); ++i) if(!prot.edgeProtected(parts[it->label][i], EPManual)) { std::cout << "edge " << parts[it->label][i] << " is not protected\\n"; return 1; }
    }
    return 0;
}
''', cxx_flags=CF, cxx_src=CS+' src/cellimage/cellstatistics.cxx')
