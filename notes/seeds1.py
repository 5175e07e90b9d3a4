import sys; sys.path.insert(0,'/verif/notes')
from mkseed import seed
CPP='src/geomap/cppmap.cxx'; HPP='src/geomap/cppmap.hxx'; PH='src/geomap/polygon.hxx'
seed('s01-bridge-outer','P01',[(CPP,"if(contourArea(newAnchor1) < contourArea(newAnchor2))","if(contourLength(newAnchor1) < contourLength(newAnchor2))")],
 'removing a bridge whose removal detaches an inner component with a longer contour than the outer contour of its face',
 'the hole contour becomes the outer contour of the face (contours, containment, area of the face are wrong)',
 demo_py='''import sys, vigra
from geomap import GeoMap, Size2D, removeBridges
# square 0..10 with a zigzag component inside, attached by one bridge; both bridge directions
def build(rev):
    pts = [(2,2)]
    for i in range(12):
        pts += [(2+i*0.5, 8), (2+i*0.5+0.25, 2.25)]
    pts += [(8.5, 8), (9, 1.5), (2,2)]
    nodes = [(0,0),(2,2)]
    br = (1,0,[(2,2),(0,0)]) if rev else (0,1,[(0,0),(2,2)])
    edges = [None, (0,0,[(0,0),(0,10),(10,10),(10,0),(0,0)]), (1,1,pts), br]
    m = GeoMap(nodes, edges, Size2D(11,11)); m.initializeMap(False)
    return m
for rev in (False, True):
    for neg in (1,-1):
        m = build(rev)
        f = m.removeBridge(m.dart(neg*3))
        a = f.contour()
        ok = m.checkConsistency() and a.edgeLabel() == 1 and f.holeCount() == 1 and f.contains((0.5,9.5)) and not f.contains((8,1.8))
        if not ok:
            print("broken: outer contour", a, "holes", f.holeCount(), rev, neg); sys.exit(1)
''')
seed('s02-merge-bbox','P02',[(CPP,"    if(survivor.flag(GeoMap::Face::BOUNDING_BOX_VALID))\n        mergedBBox = mergedFace.boundingBox();","    if(survivor.flag(GeoMap::Face::BOUNDING_BOX_VALID) &&\n       mergedFace.flag(GeoMap::Face::BOUNDING_BOX_VALID))\n        mergedBBox = mergedFace.boundingBox();")],
 'bounding box of the surviving face queried (cached) before the merge, that of the merged face not',
 'bounding box of the merged face is that of the survivor only',
 demo_py='''import sys, vigra
from geomap import GeoMap, Size2D
m = GeoMap([(0,0),(0,10)], [None, (0,1,[(0,0),(0,10)]), (1,0,[(0,10),(10,10),(10,0),(0,0)]), (1,0,[(0,10),(-3,10),(-3,0),(0,0)])], Size2D(11,11))
m.initializeMap(False)
for l in (1,2):
    if m.face(l).area() > 50: m.face(l).boundingBox()
f = m.mergeFaces(m.dart(1))
b = f.boundingBox()
if not b.contains((-2.5,5)) or not b.contains((9.5,5)):
    print('bounding box', b); sys.exit(1)
''')
seed('s03-rawadd-clip','P03',[(CPP,"""            if(begin < 0)
                begin = 0;
            if(end > labelImage.size(0))
                end = labelImage.size(0);

            for(int x = begin; x < end; ++x)
                labelImage[LabelImage::difference_type(x, y)] += diff;""","""            // skip parts outside the image
            if(begin < 0)
                continue;
            if(end > labelImage.size(0))
                end = labelImage.size(0);

            for(int x = begin; x < end; ++x)
                labelImage[LabelImage::difference_type(x, y)] += diff;""")],
 'splitting or merging an edge which enters the image through its left border',
 'pixels at the left image border keep wrong edge counts after splitEdge/mergeEdges and never become face pixels again',
 demo_py='''import sys, vigra
from geomap import GeoMap, Size2D
m = GeoMap([(-3,2),(5,2)], [None, (0,1,[(-3,2),(5,2)]), (1,0,[(5,2),(5,6),(-3,6),(-3,2)])], Size2D(8,8))
m.initializeMap()
e2 = m.splitEdge(m.edge(1), 0, (2.5,4)) if False else m.splitEdge(m.edge(2), 1, (1.5, 6))
m.mergeFaces(m.dart(1))
import numpy
m.removeBridge(m.dart(2)); m.removeBridge(m.dart(e2.label()))
a = numpy.asarray(m.labelImage())
if m.edgeCount or (a != 0).any():
    print(a); sys.exit(1)
''')
seed('s04-split-flags','P04',[(CPP,"    result->flags_ = edge.flags_;\n\n    if(sigmaMappingArray_","    result->flags_ = edge.flags_ & Edge::ALL_PROTECTION;\n\n    if(sigmaMappingArray_")],
 'an edge carrying user-defined flags that is split',
 'the new edge loses the non-protection flags of the split edge',
 demo_py='''import sys, vigra
from geomap import GeoMap, Size2D
m = GeoMap([(0,0),(9,0)], [None, (0,1,[(0,0),(4,0),(9,0)])], Size2D(10,10)); m.initializeMap(False)
m.edge(1).setFlag(0x400)
r = m.splitEdge(m.edge(1), 1)
if r.flags() != m.edge(1).flags():
    print(r.flags(), m.edge(1).flags()); sys.exit(1)
''')
seed('s05-contains-step','P07',[(PH,"            bool now = this->points_[i][1] < point[1];","            if(this->points_[i][1] == point[1])\n                continue; // touching only, decided by the following point\n            bool now = this->points_[i][1] < point[1];"),
  ],
 'query point level with the first point of a polygon',
 'the crossing at the first point is not counted, so points level with it are reported on the wrong side',
 demo_py='''import sys, vigra
from geomap import Polygon
pts = [(2,5),(10,10),(0,10),(0,0),(10,0),(2,5)]
p = Polygon(pts)
for x, want in ((1.0,True),(1.9,True),(2.5,False),(6.0,False),(-1.0,False)):
    if p.contains((x,5.0)) != want or Polygon(pts[::-1]).contains((x,5.0)) != want:
        print("contains((%s,5)) is not %s" % (x, want)); sys.exit(1)
''')
