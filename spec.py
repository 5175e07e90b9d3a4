"""The properties: what is claimed (-> properties.jsonl), how it is decided (-> MANIFEST.json)."""
MAPGEN = ('random planar maps on dyadic lattices (polygonal: segments, paths, nested rings, lattices with >50 edges, isolated nodes, '
          'label gaps, parts outside the image; or crack-edge maps of random label images, 4-/8-connected)')
EXACT = 'coordinates are dyadic rationals, so the oracle computes exactly; edges of generated maps do not cross'
PROPS = {}

def prop(id, title, statement, over, qtext, why, files, mech, observe, bin, cases, gen, thorough=20, assume=(), technique=None, note=None):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                     observe=observe, bin=bin, cases=cases, gen=gen, thorough=thorough, assume=list(assume),
                     technique=technique or 'stateful property-based testing against an independent oracle, with shrinking',
                     note=note)

CPP = 'src/geomap/cppmap.cxx'; HPP = 'src/geomap/cppmap.hxx'

prop('P01', 'Map topology stays valid and geometrically correct under Euler operations',
 'After initialization and after every sequence of successful map operations (merging faces, removing bridges or edges, merging and splitting edges, removing isolated nodes), the map is a consistent planar subdivision: every dart of an existing edge is in exactly one node orbit, orbits are ordered counter-clockwise by the geometry, edges end at the positions of their end nodes, degrees and cell counts are right, and the built-in consistency check succeeds. The left/right faces of all edges, the contours, hole contours and hole counts of every face (outer contour first), and the parent face of every hole are the ones the geometry of the remaining edges implies. The infinite face always exists with label 0.',
 ['inputs', 'histories'], 'all planar maps and all sequences of Euler operations on them, with and without a label image and with any cached quantities',
 'the tests apply a few operations to a few fixed maps; wrong orbits, anchors or hole assignments only appear for particular nestings and operation orders',
 [CPP, HPP], [('mergeFaces', CPP), ('removeBridge', CPP), ('mergeEdges', CPP), ('splitEdge', CPP), ('embedFaces', CPP), ('sortEdgesDirectly', CPP)],
 ['iteration over nodes, edges, faces, darts and contours', 'consistency check'],
 'gm_euler', 16000, MAPGEN + ' followed by 1..12 random Euler operations with random cache warming', assume=[EXACT])

prop('P02', 'Cached geometric quantities always equal the current geometry',
 'At any point of any sequence of map operations (including moving nodes) and queries, the length, signed partial area, bounding box and scanlines of every edge, the area of every face, the bounding box of every finite face, and contour lengths, areas, points and polygons equal the values computed from the current edge polylines. Whether a quantity was queried (and thus cached) earlier never changes a later result. Darts traversed backwards yield the reversed points and the negated partial area.',
 ['inputs', 'histories'], 'all planar maps, operation sequences and interleavings of queries that fill caches with operations that invalidate or update them',
 'a stale or wrongly updated cache needs a particular query before a particular operation; the tests query after the fact only',
 [CPP, HPP, 'src/geomap/polygon.hxx', 'src/geomap/cppmap_utils.cxx'], [('Edge::concatenate', CPP), ('splitEdge', CPP), ('mergeFaces (area/bbox update)', CPP), ('Face::area/boundingBox', HPP), ('Node::setPosition', CPP)],
 ['length/area/bounding box/scanlines/contour queries'],
 'gm_euler', 12000, MAPGEN + ' followed by random Euler operations and node moves interleaved with random cache-filling queries', assume=[EXACT])

prop('P03', 'Label image and pixel areas describe the current map',
 'Whenever a map has a label image, every pixel that no edge crosses carries the label of the face containing it, and every crossed pixel carries the negative number of edges crossing it, after any sequence of map operations and after dropping and rebuilding the label image. The pixel area of every face (also the infinite one) is the number of pixels carrying its label.',
 ['inputs', 'histories'], 'all planar maps within or partly outside the image, all operation sequences',
 'tests compare a handful of images; edge counts in shared pixels, nested faces and clipping go wrong only for particular geometry and histories',
 [CPP, 'src/geomap/polygon.hxx'], [('associatePixels / removeEdgeFromLabelImage', CPP), ('setHasLabelImage', CPP), ('embedFaces', CPP), ('scanPoly', 'src/geomap/polygon.hxx')],
 ['label image', 'pixel area of faces'],
 'gm_euler', 12000, MAPGEN + ' with label image, random Euler operations and label image rebuilds',
 assume=[EXACT, 'for edges that are not axis-parallel, pixels touched only within 1e-7 of their border may count either way'])

prop('P04', 'Each operation does exactly what it promises and nothing else',
 'Merging two faces returns one of the two, removes exactly the other face and the given edge (plus end nodes thereby isolated) and keeps face 0; removing a bridge removes exactly it (plus isolated end nodes) and no face; merging two edges at a degree-2 node joins their polylines in the direction of the survivor; splitting an edge at a point yields two edges with new labels that concatenate to the old one. Setting or clearing a flag of an edge or face changes that flag only; giving the faces new labels renames them consistently in faces, edges and label image and changes nothing else. All other cells keep label, geometry, neighbours and flags, pixels keep their (renamed) labels, and the label table of a map with label image maps removed faces to the surviving one. Operations whose preconditions do not hold, or on removed cells, are refused with an exception and change nothing.',
 ['inputs', 'histories'], 'all planar maps, operation sequences and operands, legal or not',
 'tests check counts after a few operations; side effects on uninvolved cells need a comparison of whole states over many configurations',
 [CPP, HPP, 'src/geomap/labellut.hxx'], [('mergeFaces', CPP), ('removeBridge', CPP), ('mergeEdges', CPP), ('splitEdge', CPP), ('changeFaceLabels', CPP), ('LabelLUT::relabel', 'src/geomap/labellut.hxx')],
 ['full snapshots of all cells before and after every operation'],
 'gm_euler', 14000, MAPGEN + ' followed by random legal and illegal operations', assume=[EXACT])

prop('P07', 'Point location finds the right face and the nearest node',
 'For every point not lying on an edge, looking up the face at that position returns the face whose region contains the point (face 0 if none), and every face reports containment of the point if and only if it is that face, with and without label image and after any operations. Nearest-node search returns a node at minimal distance, or nothing exactly if no node is closer than the given squared distance.',
 ['inputs', 'histories'], 'all maps (also modified ones) and all query points off the edges',
 'tests query a few positions; errors depend on nesting, bounding boxes, vertices at the height of the query point and pixels crossed by edges',
 [CPP, HPP, 'src/geomap/polygon.hxx', 'src/geomap/vigra/map2d.hxx'], [('faceAt', CPP), ('Face::contains', HPP), ('Polygon::contains', 'src/geomap/polygon.hxx'), ('Map2D::nearest', 'src/geomap/vigra/map2d.hxx')],
 ['face at position', 'containment test', 'nearest node'],
 'gm_build', 40000, MAPGEN + ', optionally modified; 4..24 query points incl. level with nodes and outside the image', assume=[EXACT])

prop('P08', 'Building a map from nodes and edges yields the induced planar subdivision',
 'For every planar set of nodes and edge polylines (in any insertion order and direction, with gaps in the labels, isolated nodes, edges removed, split, merged or inserted, and nodes moved before initialization; the ends of edges follow their nodes), initialization sorts the edges around every node, finds exactly the faces of the plane, embeds every hole in its parent face and leaves nodes and edges as given. Cell labels, positions and polylines are those passed in; the number and areas of faces do not depend on the insertion order; the label image is the same whether created during initialization or later. Direct sorting (and with it the initialization of an unsorted map) refuses two edges that leave a node in identical directions.',
 ['inputs', 'histories'], 'all planar graphs, insertion orders and pre-initialization edits',
 'tests construct a dozen small maps; hole embedding and sorting depend on nesting depth, sizes, and label order',
 [CPP, HPP], [('addNode/addEdge', CPP), ('sortEdgesDirectly', CPP), ('initContours', CPP), ('embedFaces', CPP), ('SigmaAnchor', HPP)],
 ['cells, orbits, contours and label image after initialization'],
 'gm_build', 16000, MAPGEN.split('; or')[0] + '), edited as a graph (0..5 operations) before initialization', assume=[EXACT])

prop('P09', 'Crack-edge maps represent exactly the regions of a label image',
 'For every label image, the crack-edge map has exactly one finite face per connected region (4-connected, or 8-connected where diagonal crossings keep the higher label connected), containing exactly the pixels of that region, with the right area, pixel area and source label. The edges consist of exactly the cracks between different pixels and the image border, each once, with nodes only at junctions or once per isolated loop, and exactly the edges at the image border are border-protected. Converting to mid-cracks (also after faces were merged) replaces each polyline by the midpoints of its cracks, keeps nodes consistent with the edges and all derived quantities up to date.',
 ['inputs'], 'all label images, both connectivities',
 'the tests use three fixed images; region adjacency patterns (diagonal touches, nested diagonal rings) are combinatorial',
 ['src/geomap/crackedgemap.cxx', 'src/geomap/crackedgemap.hxx', 'src/geomap/vigra/crackconnections.hxx', CPP],
 [('CrackEdgeMapGenerator', 'src/geomap/crackedgemap.hxx'), ('followEdge', 'src/geomap/crackedgemap.cxx'), ('markEightConnectedRegions', 'src/geomap/crackedgemap.hxx'), ('crackEdgesToMidcracks', 'src/geomap/crackedgemap.cxx')],
 ['faces, labels, source labels, flags and polylines of the generated map'],
 'gm_build', 30000, 'random label images up to 9x9 with 1..5 labels: noise, rectangles, diagonal rings, diagonal lines and checkerboards')

PH = 'src/geomap/polygon.hxx'
prop('P13', 'Polygons keep points and derived quantities consistent under editing',
 'After any sequence of editing operations on a polygon (append, extend, set, insert, erase, split, swap, reverse, clear, copy), it holds exactly the expected points, and length, signed area, bounding box, arc lengths and closedness equal the values computed from them, no matter which were queried before. The nearest point on the polygon, containment of points off a closed polygon, and the centroid are those of the current points.',
 ['inputs', 'histories'], 'all point sequences, editing sequences and cache states',
 'incrementally updated values are wrong only for particular edits while particular values are cached',
 [PH], [('Polygon', PH), ('BBoxPolygon', PH)], ['points, length, partial area, bounding box, containment, nearest point, centroid'],
 'poly', 600000, 'random polygons and 1..14 edits with random cache warming, against a plain vector model')

prop('P14', 'Scan conversion covers exactly the crossed pixels and fills the interior',
 'For every polyline, the scanlines contain exactly the pixels whose interior it crosses (each once, sorted and disjoint per line), independent of direction, also when restricted to a range of lines, and iterating yields every such pixel once. Adding the scanlines of two parts gives those of the whole. Within an image of any size, drawing marks exactly the crossed pixels, filling a simple positively oriented closed polygon marks exactly the pixels that lie entirely inside, and both return the number of pixels marked.',
 ['inputs'], 'all polylines, closed polygons and image sizes',
 'tests scan a few shapes; half-pixel positions, horizontal parts and clipping are special cases',
 [PH], [('scanPoly', PH), ('Scanlines::normalize/merge', PH), ('fillScannedPoly', PH), ('drawScannedPoly', PH)], ['scanline segments, marked pixels, counts'],
 'poly', 120000, 'random polylines and simple closed polygons (star-shaped, rectilinear combs) at integer, half-integer and finer positions',
 assume=['for polylines that are not axis-parallel, pixels touched only within 1e-7 of their border may count either way'])

prop('P15', 'Polygon simplification respects its tolerance and hulls are exact',
 'Simplifying a polygon with tolerance epsilon yields a subsequence of its points with the same end points such that every dropped point is within epsilon of the straight line through its kept neighbours (or of the neighbour if both coincide); with a maximal step, kept neighbours farther apart than that were adjacent. If all points are closer than epsilon to the straight line through the end points (and these are not farther apart than the maximal step), only the end points remain. The convex hull is a closed convex polygon made of input points that includes all extreme points.',
 ['inputs'], 'all point sequences including duplicates, collinear points and closed polygons',
 'tests use a few smooth shapes without degenerate point sets',
 [PH], [('simplifyPolygon', PH), ('convexHull', PH)], ['resulting point sequences'],
 'poly', 300000, 'random polygons with 2..44 points, duplicates and collinear runs')

prop('P30', 'Resampling and smoothing preserve shape invariants',
 'Linear resampling yields equidistant points in arc length, as many as the desired distance requires, lying on the polygon and including both end points. Exponential smoothing yields mean values of the vertices with weights decaying exponentially with their distance in arc length (the polygon being continued cyclically for one period if closed, by point reflection at its ends if open), at equidistant positions along the smoothed polygon, as many as the desired distance suggests; it commutes with translating and rotating the input and keeps closed polygons closed. Single segments are not changed by any of these. Gaussian smoothing always terminates for polygons longer than the filter radius and yields, at equidistant arc lengths, the Gaussian-weighted mean of the points within the filter radius, the polygon being continued cyclically if closed and by point reflection at its ends (which it thus keeps) if open.',
 ['inputs'], 'all open and closed polygons without repeated points, step sizes and scales',
 'the tests do not cover resampling at all except for one circle',
 [PH], [('resamplePolygonLinearInterpolation', PH), ('resamplePolygonExponentialFilter', PH), ('resamplePolygonGaussianFilter', PH)], ['resulting point sequences'],
 'poly', 150000, 'random sparse and dense polygons, open or closed')

FES = 'src/cellimage/foureightsegmentation.cxx'; FESH = 'src/cellimage/foureightsegmentation.hxx'
IMGGEN = 'random thinned boundary images up to 12x12 (noise, region boundaries, lines, rectangles, diamonds, points), both corner types'
prop('P23', 'Pixel-based maps partition thinned boundary images consistently',
 'For every fully thinned boundary image in which no node encloses further boundaries, constructing the pixel-based map (cellimage) terminates and yields a consistent cell complex: every pixel that is no boundary pixel belongs to the face of its 4-connected region (or to the node that entirely encloses the region), boundary pixels and the added frame belong to nodes and edges, face 0 is the outside. Labels, sizes, bounding boxes, cell counts and scan iterators agree with the cell image; sigma, alpha and phi are permutations with the right inverses; every edge has two darts; degrees and faces left and right of both ends agree; every contour and isolated node is listed exactly once by its face, and Euler\'s formula holds. A map imported from the cell image is the same.',
 ['inputs'], 'all thinned boundary images and both corner types', 'the tests construct three images; junction configurations, nestings and touching frames are combinatorial',
 [FES, FESH, 'src/cellimage/cellimage.hxx', 'src/cellimage/cellconfigurations.hxx'], [('initCellImage/labelNodes/labelEdges/labelFaces/labelSelfLoops', FES), ('initNodeList/initEdgeList/initFaceList', FES), ('DartTraverser', FESH), ('LabelScanIterator', FESH)],
 ['cell image, cell lists, dart traversal, scan iterators'],
 'cell', 60000, IMGGEN, assume=['images that are not thinned, or in which a cluster of junction pixels encloses other boundaries, are outside the domain (see DESIGN.md)'])
prop('P24', 'Euler operations keep pixel-based maps consistent and do nothing else',
 'After every sequence of operations on a pixel-based map (removing isolated nodes, merging faces, removing bridges, merging edges), the map is consistent in the sense of P23, and each operation changes exactly what it promises: the removed cells\' pixels go to the surviving cell, which is returned; sizes, bounds, degrees, end nodes, adjacent faces, contours and counts are updated; every other cell keeps its label and pixels; the infinite face is never removed. Operations whose preconditions do not hold are refused and change nothing. Copies (constructed or assigned) are equal and independent.',
 ['inputs', 'histories'], 'all such maps, operation sequences, operands (legal or not) and interleaved copies', 'the tests apply a few operations to three images',
 [FES, FESH], [('removeIsolatedNode/mergeFaces/removeBridge/mergeEdges', FES), ('findComponentAnchor', FES), ('deepCopy', FES)], ['full state of the map before and after every operation'],
 'cell', 14000, IMGGEN + '; up to 60 random operations, 1/8 of them unrestricted (possibly illegal), and copies')
prop('P25', 'Pyramids reproduce every level of their history exactly',
 'A CellPyramid over a pixel-based map reproduces, for every level index, exactly the state (all cells, and the statistics object fed with the same operations) after that many recorded operations, no matter where checkpoints lie, how the level is reached (getLevel, gotoLevel, approachLevel with a step limit) and which levels were visited before. Composite operations count as one level, composites without operations as none; removing an edge (with ends) performs the matching elementary operations. Cutting above a level makes it the new top. Refused operations raise their own exception and leave the pyramid unchanged. Statistics hooks are called once before and after each elementary operation.',
 ['inputs', 'histories'], 'all operation sequences with composites, cuts, refusals and level visits', 'no test exercises levels, checkpoints or composites beyond one linear history',
 ['src/cellimage/cellpyramid.hxx', FES], [('CellPyramid', 'src/cellimage/cellpyramid.hxx'), ('Level::gotoLastCheckpointBefore', 'src/cellimage/cellpyramid.hxx'), ('DartTraverser::serialize', FESH)], ['levels, level count, segmentation and statistics of each level'],
 'cell', 8000, IMGGEN + '; up to 60 pyramid operations incl. (nested, empty) composites, cuts and level visits')

# what decides each property (-> DESIGN.md)

prop('P05', 'Callbacks see every operation and can veto it completely',
 'Every callback connected to a map operation is called exactly once per operation, in connection order. Pre-operation callbacks see the unchanged map and correct arguments (face merge: a dart with the face that will vanish on its right and the surviving one on its left; bridge removal: the dart given; edge merge: the dart of the surviving edge that starts at the vanishing node; edge split: edge, segment index, point and insertion flag; node removal: the node). As soon as one returns false, no further callback is called, the operation returns null/false and the map is unchanged; a vetoed removal of an isolated end node merely keeps that node. After a successful operation, post-operation callbacks see the resulting map and cell, and the pixel callback receives exactly the pixels that changed from edge to face, with the pixel area already updated. Refused calls and disconnected callbacks trigger nothing.',
 ['inputs', 'histories'], 'all maps, operation sequences and callback return values',
 'tests connect one or two callbacks with one fixed outcome; partial effects of a veto and wrong arguments need whole-state comparison inside the callbacks',
 [CPP, HPP], [('preMergeFacesHook, preRemoveBridgeHook, preMergeEdgesHook, removeNodeHook', CPP), ('associatePixels', CPP), ('interruptable_accumulator', HPP)],
 ['callback invocations, arguments and the map state inside them'],
 'gm_hooks', 24000, MAPGEN + ', 1..3 recording callbacks per hook with random vetoes, 1..8 operations', assume=[EXACT])

prop('P06', 'Copies of maps are equal and independent',
 'A copy of a map (in any stage: graph, sorted graph or initialized map, with or without label image, after any history) has the same cells, labels, orbits, faces, flags, label image, label table, counts and nearest nodes as the original, and the same operation has the same effect on both. No operation on, or destruction of, one of them changes the other or calls the other\'s callbacks.',
 ['inputs', 'histories'], 'all maps and histories before and after copying',
 'sharing between copies only shows when one of them is modified afterwards in a particular way',
 [CPP, HPP], [('GeoMap copy constructor', CPP), ('Edge/Face/Node copy constructors', CPP)],
 ['snapshots of both maps'],
 'gm_hooks', 12000, MAPGEN + '; history, copy, lockstep operations, diverging histories, destruction', assume=[EXACT])

prop('P10', 'Compound clean-up operations remove exactly what they promise',
 'Removing a set of distinct edges removes exactly those edges (whether bridges or not, in any order) except ones whose removal a callback vetoes, then leaves no isolated node and no node joining just two different edges, keeps all other geometry and all flags, and returns the number of elementary operations performed. Removing bridges removes exactly the (unvetoed) bridges and nodes thereby isolated; merging degree-2 nodes merges exactly at nodes joining two different edges without changing geometry; removing isolated nodes removes exactly those; each returns its count. Merging two faces completely removes all their common edges, but changes nothing and returns null if one of these is protected. The resulting map is valid (topology, caches, label image).',
 ['inputs', 'histories'], 'all maps, edge subsets, orders and veto sets',
 'tests call them on single maps; the cascade over chains of bridges and refused bridges depends on list order and map structure',
 ['src/geomap/cppmap_utils.cxx', 'src/geomap/cppmap_utils.hxx'], [('removeEdges', 'src/geomap/cppmap_utils.hxx'), ('removeBridges', 'src/geomap/cppmap_utils.cxx'), ('mergeFacesCompletely', 'src/geomap/cppmap_utils.cxx')],
 ['snapshots and returned counts'],
 'gm_hooks', 20000, MAPGEN + ', optional history, then 1..3 compound operations with random operands and vetoes', assume=[EXACT])

prop('P11', 'Edge protection is enforced exactly while attached',
 'While an edge protection object is attached to a map, no edge carrying any protection flag (low byte of the flags) can be removed by merging faces or removing bridges, and two edges are merged only if all their flags are equal; refused operations change nothing, all others succeed. Flags can be set and cleared individually without affecting other flags, and splitting keeps them on both parts. After detaching or destroying the object, operations are unrestricted again; attaching twice is refused.',
 ['inputs', 'histories'], 'all maps, flag assignments, operation sequences and attach/detach/destroy points',
 'tests protect one border flag; other flag combinations and lifetimes are not sampled',
 ['src/geomap/cppmap_utils.hxx', HPP], [('EdgeProtection', 'src/geomap/cppmap_utils.hxx'), ('Edge::setFlag', HPP)],
 ['results of operations, edge flags'],
 'gm_hooks', 30000, MAPGEN + ', random flag changes, operations and attach/detach/destroy', assume=[EXACT])

prop('P12', 'Face statistics always equal those of the face\'s pixels',
 'A face statistics object built for a map with label image and kept attached reports, after any sequence of map operations (also vetoed ones), for every face exactly the number, average and (biased and unbiased) variance of the image values of the pixels carrying its label, has no statistics for removed faces, and derives mean difference, homogeneity measures and the region image from these. With supersampling requested, finite faces with fewer pixels than the minimal sample count are additionally sampled (from the interpolated image, inside the face) until they have enough samples, superSampledCount() initially being their number; the statistics of all other faces, of faces resulting from a merge with such a face, and of faces having at least the minimal number of pixels after pixels became associated with them are exactly those of their pixels, and no face loses its minimal number of samples. Its consistency check succeeds; copies are independent; detaching or destroying it leaves the map usable.',
 ['inputs', 'histories'], 'all maps, images (scalar or vector) and operation sequences',
 'the tests build statistics once and merge a few faces; supersampling transitions and empty faces need particular geometry',
 ['src/geomap/facestatistics.hxx', CPP], [('FaceColorStatistics::preMergeFaces/postMergeFaces/associatePixels', 'src/geomap/facestatistics.hxx')],
 ['pixelCount, average, variance, faceMeanDiff, homogeneity, copyRegionImage'],
 'gm_hooks', 12000, MAPGEN + ' with label image and random float or 3-band images, minSampleCount 0..4, 1..10 operations',
 assume=[EXACT, 'supersampling (minSampleCount>0) is only generated for maps inside images of at least 8x8 pixels: vigra\'s order-5 spline view reads outside smaller ones'])

prop('P16', 'Label table, spatial index and filter iterators are exact',
 'The label table of faces maps every label to the surviving label it was (transitively) merged into, after any sequence of relabellings, appends, copies and resets, and the list of labels merged into a surviving label contains that label first and exactly all labels merged into it. The 2D spatial index holds exactly the inserted and not erased objects, and its nearest-object query returns an object of minimal distance among those strictly closer than the given (squared) limit, or nothing if there is none; ties may be resolved either way. Filter iterators visit exactly the elements (or pixels of the image region) satisfying the predicate, in order, also when elements are filtered out while iterating with the safe variant.',
 ['inputs', 'histories'], 'all sequences of table, index and iterator operations',
 'pruning errors in the index or broken merge lists only show for particular positions and merge orders',
 ['src/geomap/labellut.hxx', 'src/geomap/vigra/map2d.hxx', 'src/geomap/filteriterator.hxx', HPP], [('LabelLUT::relabel', 'src/geomap/labellut.hxx'), ('Map2D::nearest', 'src/geomap/vigra/map2d.hxx'), ('FilterIterator', 'src/geomap/filteriterator.hxx')],
 ['label lookup and merged-label iteration', 'nearest-object search', 'iteration'],
 'gm_misc', 600000, 'random relabelling histories over 1..14+ labels; random insert/erase/query histories of 2..30 operations on half-integer grids (many ties); random filter masks, with elements dropped during iteration')

prop('P17', 'Positions on darts move exactly along the polyline',
 'A position object on a dart always lies on the dart\'s polyline (in the direction of the dart): after any sequence of moves (to an arc length forward or backward, to the next or previous segment, out of a circle, to the intersection with a circle around a centre the current segment starts in), its position, arc length, segment index, segment start and end, and end-of-dart state are those of the corresponding point of the polyline, and each move reports success exactly if the requested place exists on the dart; moves past either end stop at that end.',
 ['inputs', 'histories'], 'all polylines, both dart directions, all sequences of moves',
 'the existing tests only move forward on one polyline',
 [HPP], [('DartPosition::gotoArcLength', HPP), ('DartPosition::intersectCircle', HPP), ('DartPointIter', HPP)],
 ['DartPosition queries', 'dart point iteration'],
 'gm_misc', 500000, 'random polylines of 2..8 half-integer points (open or closed), both directions, 1..10 moves', assume=['arc lengths compared with tolerance 1e-6; circles through support points (within 1e-9) are skipped'])

prop('P18', 'Edges are sorted by where they eventually diverge',
 'Sorting the edges around nodes by following them step by step gives the same counter-clockwise order as sorting by angle if edges leave at clearly different angles, and otherwise the order in which the edges lie side by side after the common beginning; edges that never diverge are reported as unsortable group (once per end, and no others) and stay neighbours. Splitting and merging the parallel beginnings afterwards yields a consistent map without the duplicated parts: the branching structure is that of the bundle (one node near every branching point, same cyclic order of the remaining ends), edges start and end at their nodes, cached lengths/bounding boxes/scanlines are current, and the flags of merged edges are kept; where edges with a common beginning are merged, it follows the edge with the highest edge preference or, without preferences, the one that continues straightest.',
 ['inputs'], 'all planar bundles of edges with common beginnings, all step widths small compared to the geometry, edges in both directions',
 'the tests sort single examples; grouping, cyclic wrap-around and merging depend on angles and on the number of edges per group',
 [CPP], [('sortEdgesEventually / sortEdgesInternal', CPP), ('splitParallelEdges', CPP)],
 ['node orbits after sorting', 'unsortable groups', 'map after splitParallelEdges'],
 'gm_misc', 60000, 'random planar graphs (separated edges); random planar trees whose root-to-leaf paths are the edges, in random order and direction, optionally one of them doubled',
 assume=['where more than two edges diverge at one point, they may be separated by several nodes within the step width'])

prop('P26', 'Digital straight lines and tangents are exact',
 'A digital straight line contains exactly the integer points given by its inequality, its slope, axis intercepts, mirrored versions and conversion to four-connectivity describe the corresponding line. Adding a further point at one end of a segment succeeds exactly if the points still form a digital straight segment, the result contains all points added so far, and a refused point leaves the line unchanged. The tangent of a crack-edge contour (open or closed, given by Freeman codes) at any inner point extends symmetrically as far as the points form a digital straight segment with the two codes involved and contains all these points.',
 ['inputs'], 'all lines, digital curves and contour points',
 'the incremental arithmetic fails only for particular slopes, directions and octants',
 ['src/geomap/vigra/dsl.hxx'], [('DigitalStraightLine::addPoint', 'src/geomap/vigra/dsl.hxx'), ('tangentDSL', 'src/geomap/vigra/dsl.hxx')],
 ['line parameters', 'addPoint', 'tangentDSL'],
 'gm_misc', 600000, 'random lines, random (nearly straight or arbitrary) staircases grown in both directions, random open curves and closed contours of Freeman codes in all rotations')

prop('P31', 'Drawn label images show the face or edge at every pixel',
 'Drawing the label image of a map into a zero-initialised image of any size (with or without cached label image, after any sequence of operations, also for maps partly outside) marks with negative edge labels exactly the pixels crossed by an edge with -1 and gives every other pixel the label of the face containing it; without negative edge labels, every pixel gets the label of the face at its centre. Nothing is written outside the image.',
 ['inputs', 'histories'], 'all maps, destination sizes and operation histories',
 'wrong only for nested faces with unfortunate label order, bridges in the infinite face, or clipping',
 ['src/geomap/cppmap_utils.hxx', 'src/geomap/polygon.hxx'], [('drawLabelImage', 'src/geomap/cppmap_utils.hxx'), ('fillScannedPoly / drawScannedPoly', 'src/geomap/polygon.hxx')],
 ['drawLabelImage'],
 'gm_misc', 40000, MAPGEN + ', 0..6 operations, destination of the size of the map or of random size 1..16',
 assume=[EXACT, 'for edges that are not axis-parallel, pixels touched only within 1e-7 of their border may count either way; pixel centres exactly on an edge are not compared'])

BIND = 'src/python_bindings/cppmapmodule.cxx'
CI = 'src/cellimage/'
ST = 'python/maputils/statistics.py'
MU = 'python/maputils/maputils.py'
PYGEN = 'random planar straight-line maps (integer/half-integer points, grids, polygons, nested components, isolated nodes) built through the Python interface, 0..5 random elementary operations before'

prop('P19', 'Pickled and copied Python maps are equal and independent',
 'A GeoMap that is pickled and unpickled (any pickle protocol), copied with copy.copy or with copy.deepcopy is equal to the original in every observable respect: all cells and their labels, positions and polylines, sigma order, faces, contours and anchors, flags of edges and faces, label image, pixel areas, whether it is sorted / initialized, and custom Python attributes (shared by copy.copy, duplicated otherwise; an attached EdgeProtection protects the copy for deepcopy and pickle). This holds for graphs, sorted graphs and maps, with and without label image, without edges, and after any sequence of operations. Afterwards changing one of them never changes the other one, and the same operations have the same effects on both (except that pickling forgets cell labels beyond the largest used one).',
 ['inputs', 'histories'], 'all maps in all construction stages, all operation sequences before and after copying',
 'the test pickles one crack-edge map and compares only a few counts',
 [BIND, CPP], [('GeoMapPickleSuite / pickling of cells', BIND), ('generic__copy__ / generic__deepcopy__', 'src/python_bindings/exporthelpers.hxx')],
 ['the whole Python-visible state of both maps'],
 'py_map.py', 24000, PYGEN + '; random flags, attributes and edge protection; 1..4 operations afterwards on one and then on the other map')

prop('P20', 'The Python interface reports the map faithfully and calls back exactly',
 'Through Python, iterating over cells gives exactly the existing cells in label order, access by label gives the cell or None, and all queries agree with each other (degrees, orbits in both directions, end nodes and faces of darts and edges, points of darts with positive and negative indices, IndexError outside, isLoop/isBridge, contour polygons, areas and lengths, sigma mapping). A sorted graph given the sigma mapping of an equal map becomes the same map. Callbacks registered from Python are called exactly once per operation and connection with the documented arguments, before (map unchanged so far) respectively after the operation (map in its final state); any callback returning False prevents the operation completely, an exception raised before the operation leaves the map unchanged and reaches the caller, and callbacks that were disconnected or whose connection was deleted are not called any more. The pixels reported as associated are exactly those of the label image that changed from edge to face.',
 ['inputs', 'histories'], 'all maps, operation sequences and combinations of connected, disconnected, vetoing and raising callbacks',
 'the tests use one callback pair for one operation on one map',
 [BIND, CPP], [('add*Callbacks / SimpleCallback', BIND), ('cell iterators and accessors', BIND), ('GeoMap::setSigmaMapping', CPP)],
 ['Python-visible state', 'callback log'],
 'py_map.py', 8000, PYGEN + '; one or two sets of callbacks on all hooks, random vetoes, exceptions, disconnections, 1..5 operations',
 assume=['callbacks of operations nested in other operations (e.g. node removal within merging edges) see intermediate states and are only checked for arguments and veto effects', 'exceptions are raised only before the main operation'])

prop('P21', 'The Python clean-up and merging helpers do exactly what they promise',
 'removeCruft removes exactly the kinds of cells asked for (isolated nodes, degree-2 nodes, bridges, non-bridge edges) except protected ones; removeUnProtectedEdges leaves exactly the protected edges; mergeFaceToBestNeighbor merges the face with the neighbour of minimal cost along all common edges; removeSmallRegions merges only faces below the size threshold, each with a cheapest mergeable neighbour, and leaves no small face that could still be merged; mergeFacesByLabel and findCommonDart work exactly for adjacent faces; applyFaceClassification removes exactly the edges between faces of the same class; extractContractionKernel tells for every original face which face it was merged into. The counts returned equal the operations performed, nothing else changes, and the resulting map is consistent. A LiveHistory replayed on a copy of the initial map (or executed as commands) reproduces the final map exactly.',
 ['inputs', 'histories'], 'all maps, flags, cost functions, thresholds, classifications and operation histories',
 'none of these functions is tested',
 [MU], [('removeCruft / removeUnProtectedEdges', MU), ('removeSmallRegions / mergeFaceToBestNeighbor', MU), ('applyFaceClassification / extractContractionKernel', MU), ('LiveHistory', MU), ('checkCachedPropertyConsistency', MU)],
 ['map before and after', 'return values'],
 'py_utils.py', 40000, PYGEN + '; random flags, costs, classes and thresholds')

prop('P22', 'Region merging, minimum spanning trees and watersheds on maps are optimal',
 'minimumSpanningTree returns a subset of the given edge costs that forms a spanning forest of the region adjacency graph with minimal total cost; regionalMinima labels exactly the faces at minimal tree edges; seeded region growing (static and waterfall) keeps the seeds, gives every other face the label of a seed it can reach with minimal bottleneck cost, leaves faces without reachable seed unlabelled, and grows connected regions; waterfall removes exactly the edges within the resulting regions; SeededRegionGrowing merges every face with the cheapest adjacent region in order of the queued cost (dynamic: always with the current costs) until only grown seeds are left; the AutomaticRegionMerger removes exactly the unprotected edges up to the given cost (or number of steps), cheapest first; with a cost measure it recalculates the costs of all edges around the surviving face (outer and inner contours) after every merge, and complete merges remove all common edges of both faces, or none if one of them is protected; thresholdMergeCost stops when no cost is left within the threshold. nextCost() and nextLabel() announce the following step. Maps passed to the labelling functions are not changed; changed maps stay consistent.',
 ['inputs'], 'all maps, edge costs (with ties and missing costs), seeds and thresholds',
 'optimality needs an oracle; none of these functions is tested',
 [MU], [('minimumSpanningTree / regionalMinima / waterfallLabels', MU), ('seededRegionGrowingStatic', MU), ('SeededRegionGrowing', MU), ('AutomaticRegionMerger / StandardCostQueue', MU)],
 ['returned labels and trees', 'map afterwards'],
 'py_utils.py', 30000, PYGEN + '; random costs, seeds and flags',
 assume=['SeededRegionGrowing is driven with pairwise different costs', 'geomap.DynamicCostQueue is no longer part of the bindings: where it is needed, the check supplies a dictionary with its interface'])

prop('P32', 'Map traversal helpers and map copies with new labels are exact',
 'The traversal helpers of maputils (contourDarts, neighborFaces, holeComponent, nonBorderEdges, nonBackgroundFaces, nodeAtBorder, degree2Nodes, mapValidEdges/Faces/Darts, extractFaceClasses) return exactly the cells they are documented to return, each once; pointInFace returns a point the face contains; protectFace marks exactly the contour edges of protected faces, also when neighbouring protections are removed again. copyMap, copyMapContents (optionally into a given map, adding to its contents, and with transformed or dropped edges) and mapFromEdges produce maps with the same cells, geometry, flags, sigma order and faces up to relabelling, report the correspondence correctly, compress labels, and leave the source unchanged.',
 ['inputs'], 'all maps, flags, transformations and dropped edges',
 'most of these functions are untested; failures need holes, self-loops at shared nodes, or gaps in the labels',
 [MU], [('copyMapContents / copyMap / mapFromEdges', MU), ('contourDarts / neighborFaces / holeComponent', MU), ('pointInFace', MU), ('protectFace', MU)],
 ['returned cells', 'copied map'],
 'py_utils.py', 40000, PYGEN + '; random flags, translations and dropped edges',
 assume=['pointInFace is not checked where its fallback for faces without interior pixel centres fails with an exception (vector arithmetic not supported by the installed vigra)'])


STAT = 'src/python_bindings/statistics.cxx'
PBIND = 'src/python_bindings/polygon.cxx'

prop('P28', 'Polyline statistics describe exactly the weighted values added or merged',
 'PolylineStatistics and QuantileStatistics (as kept per edge by the segmentation algorithms) describe exactly the (value, length) pairs put into them so far, directly or by merge(): average() is the length-weighted mean (0 without weight), min() and max() are the extreme values (also for negative values and zero lengths), and QuantileStatistics.quantile(q) is the smallest value such that the lengths of all values up to it reach the fraction q of the total length (the maximum for q = 1; an exception if there are no values). merge() adds the values of the other object without changing it, and pickling restores an object that is independent and equal in all respects, whenever quantiles have been queried before.',
 ['inputs', 'histories'], 'all sequences of adding, merging, pickling and querying',
 'the sorting of the quantile statistics is lazy, so that errors depend on the order of queries, additions, merges and pickling',
 [STAT], [('PolylineStatistics / QuantileStatistics', STAT), ('PolylineStatisticsPickleSuite / QuantileStatisticsPickleSuite', STAT)],
 ['average()', 'min()', 'max()', 'quantile()'],
 'py_poly.py', 200000, 'histories of up to 10 operations on several statistics objects with values and lengths on small lattices (ties, zero lengths and negative values are frequent)')

prop('P29', 'Python polygons, point arrays, boxes and scanlines behave like their models',
 'A Polygon or Vector2Array in Python behaves as the list of its points under append, insert, deletion, item assignment, indexing (negative and out-of-range indices included: IndexError), simple slices, extend (the common end point is not doubled), split (both parts contain the split point), reverse, swap (with a Polygon or a Vector2Array), scaling, translation, rounding, copying and pickling; copies and slices are independent. length(), partialArea(), boundingBox(), closed() and arcLengthList() always are those of the current points, no matter which were queried before which modification; nearestPoint() is a point of the polyline with minimal distance; interpolate() is linear. BoundingBox implements closed axis-parallel boxes, the empty box included: union, intersection, containment, intersects, equality, moves, resizing, borders, pickling, intPos() rounding. scanPoly(polygon).points() enumerates the pixels of its sorted, disjoint segments, scanPoly(polygon, count, start) returns the same scanlines within the range, and out-of-range indices raise IndexError. intersectLine() returns the maximal parts of a polyline on the one side of the line (including the crossing points), and angleTheta() orders directions exactly like atan2 within -2..2.',
 ['inputs', 'histories'], 'all histories of modifications and queries, all boxes, polygons and lines',
 'bounding box, length and area are cached with a dozen invalidation rules; a stale cache shows only if the right property was queried before the right modification',
 [PBIND, 'src/geomap/polygon.hxx'], [('class Polygon / BBoxPolygon', 'src/geomap/polygon.hxx'), ('insert / erase / Array__getitem__ / split / intersectLine / defPolygon', PBIND)],
 ['points', 'length / area / bounding box', 'boxes', 'scanlines', 'exceptions'],
 'py_poly.py', 120000, 'model-based histories on polygons (points on a half-integer lattice, duplicates and closed polygons frequent) with cached properties queried at random in between; random boxes including degenerate and empty ones; random lines and scanline ranges',
 assume=['negative insert positions, extending a polygon by itself and extended slices (refused) are outside the domain', 'for slanted lines, intersectLine() is not judged if a point lies exactly on the line'])

prop('P33', 'Tangents, curvatures and smoothing along polylines follow their definitions',
 'For every polyline: tangentList(points, dx, skip) and curvatureList() give, for every point at least dx + skip from both ends (and only for those; chords of zero length are left out), its arc length and the direction of the chord from the point dx before to the point dx after / the turning angle between the two half chords divided by their mean length (never NaN), and refuse dx < 1 and too few points with ValueError. tangentListChord() uses the chord over the arc length interval [-scale, scale], tangentListNormalizedGaussian(VariableScale) the derivative of the confidence-weighted normalized Gaussian smoothing within 3 (2.5) sigma, thirdDerivativeOfPolygon() the third difference at the given distance - with the polyline continued cyclically if closed and by point reflection otherwise. All tangent lists are continuous (no jumps by more than pi). gaussianConvolveByArcLength() and equidistantGaussians() return Gaussian weighted means (normalized within the filter radius), derivatives of constants are zero and borders repeat the end values; the cyclic variants wrap around; tangentListGaussianReflective/Cyclic return directions of differences of smoothed points. composeTangentLists()/appendTangentList() concatenate, reverse and shift tangent lists correctly, and ParabolaFit is the least-squares parabola with its residuals. No valid call reads outside the given points.',
 ['inputs'], 'all polylines, scales, confidences and derivative orders',
 'index arithmetic at both ends, wrap-around and filter lengths near the polyline length are only reached by particular combinations of sizes and scales',
 [PBIND], [('tangentList / curvatureList / tangentListChord / tangentListNormalizedGaussian* / gaussianConvolveByArcLength* / tangentListGaussian* / composeTangentLists / appendTangentList', PBIND), ('ParabolaFit', PBIND)],
 ['returned lists', 'exceptions'],
 'py_poly.py', 120000, 'random smooth and jagged polylines (open and closed), random distances, scales, confidences, positions and values',
 assume=['the sign convention of Gaussian derivatives and the border treatment of second derivatives are judged only as stated', 'positions within 1e-6 of a filter cut-off are discarded'])


CIM = 'src/cellimage/cellimage_module.cxx'
prop('P35', 'The Python cellimage module reports and edits pixel-based maps faithfully',
 'In Python, CellPixel keeps type and label independently and compares by both; CellImage stores and returns exactly the pixels set (coordinates outside raise RuntimeError) and serialize() followed by CellImage() restores it. A cellimage.GeoMap built from a thinned boundary image (the given edge value marks boundary pixels) or from the CellImage of another map describes its cellImage: node/edge/face lists iterate over exactly the existing cells in label order, their len() and access by label agree (labels outside 0..maxLabel-1 raise IndexError, labels without a cell give uninitialized infos), bounds and sizes are those of the cell pixels, darts traverse consistent sigma/alpha/phi orbits whose node, edge and face labels and infos agree with contours and degrees, and iterating over a dart yields exactly the pixels of the edge as a connected chain from its start node to its end node (nodePosition() being the adjoining node pixels), reversed from the other end. removeIsolatedNode, mergeEdges, removeBridge and mergeFaces return the surviving cell and change exactly the affected cells; map import reproduces the same map.',
 ['inputs', 'histories'], 'all thinned boundary images without clusters of junctions, all sequences of legal Euler operations',
 'the seven existing tests only count cells of fixed images; access by label, traversal and modification through Python are untested',
 [CIM, 'src/cellimage/cellimage_module.hxx', 'src/cellimage/cellimage_dart+info.cxx'], [('BOOST_PYTHON_MODULE_INIT(cellimage)', CIM), ('NodeListProxy / EdgeListProxy / FaceListProxy', 'src/cellimage/cellimage_module.hxx'), ('DartIterator / contourGetItem', 'src/cellimage/cellimage_dart+info.cxx'), ('EdgelIterator', 'src/cellimage/foureightsegmentation.hxx')],
 ['cellImage', 'cell lists', 'darts', 'exceptions'],
 'py_cell.py', 6000, 'random outlines (lines, rectangles, diamonds, points) thinned topology-preservingly, both corner types; 0..5 random legal Euler operations; random cell images',
 assume=['images for which a node gets more than three pixels are discarded (clusters of junctions, see P23)', 'after a node of several pixels became part of an edge, the pixel chain of that edge is only required to stay within the edge'])


prop('P36', 'Edge and face statistics of maputils follow the map through all operations',
 'A statistics object attached to a map stays correct while edges are merged, split (where supported), removed and faces merged. StaticEdgeCosts returns the initial cost of every edge for both darts (None for skipped border edges), the length-weighted combination for merged edges with a combiner (merging is vetoed without one or if a cost is None) and never changes the caller\'s cost list. MergedEdges gives exactly the initial edges every edge is composed of. DynamicEdgeIndices and WatershedStatistics keep pointing at the same points (saddles) of the polylines, for both dart directions, after merging and splitting, also if further edges were added before the map was initialized; pass values are the minimum over merged edges and over common boundaries, border edges are never merged with others, dynamics is pass value minus the lower basin. WatershedBasinStatistics gives every finite face the depth of its deepest minimum. Boundary statistics (average, min, max, quantiles) of an edge and of a common boundary equal those of all contributing samples. After detachHooks() the object no longer influences the map, and (apart from MergedEdges) pickling it together with the map preserves and re-attaches it. commonBoundaryDarts, mergedContourLength, the isoperimetric quotients, faceAreaHomogeneity, combinedMeasure and HyperbolicInverse equal their definitions.',
 ['inputs', 'histories'], 'all maps, sample values, minima, saddle positions and operation sequences',
 'none of these classes is tested',
 [ST], [('StaticEdgeCosts / MergedEdges', ST), ('DynamicEdgeIndices / WatershedStatistics', ST), ('WatershedBasinStatistics', ST), ('BoundaryIndicatorStatistics / EdgeGradientStatistics', ST), ('merged contour measures', ST)],
 ['values reported for every edge, dart and face', 'vetoes of operations'],
 'py_stats.py', 24000, PYGEN + '; one statistics object with random initial data, 1..7 operations, both dart directions',
 assume=['indices initially lie strictly inside the edges', 'pickling a map forgets labels beyond the largest used one, therefore edges are not split after it in that case'])

SPW = 'src/geomap/vigra/subpixel_watershed.hxx'
prop('P27', 'Subpixel critical points and flow lines of spline images are correct',
 'SubPixelWatersheds over an order 2, 3 or 5 spline image view: the lists of minima, saddles and maxima start at index 1; every reported point lies inside the image, has (numerically) zero gradient and, if its Hessian is well-conditioned, the reported type; no two reported points are closer than the minimum distance, also after searching again; every well-conditioned critical point which a Newton iteration from one of the (masked) oversampled starting points reaches robustly within 2 pixels is reported, and nothing further than 2 pixels from all masked starting points is. nearestMaximum returns index and distance of the nearest maximum in the half plane of the given direction whenever there is one closer than half a pixel (also with two maxima around a pixel). The two flow lines of a saddle start exactly at it with steps of initialStep in opposite directions along the ascending eigenvector, stay inside the image, never descend, follow the steepest ascent (up to the requested accuracy and isolated exceptions), and end exactly at the maximum whose index is returned (or give up with 0 or a negative code, but not if steepest ascent leads robustly to a reported maximum); findEdge returns the reversed forward line followed by the backward line (saddle once) and both end indices.',
 ['inputs'], 'all images, spline orders, masks, oversampling factors and minimum distances',
 'there is no test of the subpixel watersheds at all',
 [SPW], [('SubPixelWatersheds::findCriticalPoints', SPW), ('findCriticalPointNewtonMethod', SPW), ('SubPixelWatersheds::flowLine / rungeKuttaInitialStep / findEdge', SPW), ('SubPixelWatersheds::nearestMaximum', SPW)],
 ['lists of critical points', 'nearestMaximum', 'flowLine', 'findEdge'],
 'gm_spws', 1500, 'random images of 6..20 pixels (noise, smoothed noise, sums of blobs, ridges), float or double, order 2/3/5, random masks, oversampling 1..3, minimum distances; flow lines of up to 4 saddles',
 assume=['critical points with nearly singular Hessian, at facet borders of order 2 splines or within rounding errors of a basin border may be reported either way', 'values compared with tolerances relative to the range of the image (descent: 1e-3)'])

prop('P34', 'Pixel-based critical points, directed maxima and oversampling match definitions',
 'findCriticalPoints48Neighborhood reports exactly the inner pixels which are strict minima or maxima of their 4- or 8-neighbourhood and those around which the (non-zero) signs of the differences change at least four times as saddles. findCriticalPointsLinearInterpolation reports exactly the strict 4-neighbourhood minima, maxima and saddle pixels and the saddles of the bilinear interpolation inside the inner facets, at their exact positions. findDirectedMaximum succeeds exactly if Newton iteration along the given line through the start converges to a maximum within the given distance and the image interior, and returns that point. oversamplingConvolution gives, at every pixel and half-pixel position, the Gaussian mean or normalized first derivative of the image (reflected at its borders).',
 ['inputs'], 'all images, neighbourhoods, directions, distances, scales and derivative orders',
 'none of these functions is tested',
 [SPW, 'src/geomap/vigra/oversampling.hxx'], [('findCriticalPoints48Neighborhood', SPW), ('findCriticalPointsLinearInterpolation', SPW), ('findDirectedMaximum', SPW), ('oversamplingConvolution', 'src/geomap/vigra/oversampling.hxx')],
 ['reported points', 'return values', 'oversampled images'],
 'gm_spws', 30000, 'random integer images of 1..8 pixels with many ties; random spline images with random start points, directions and distances; random images, scales 0..1.2 and derivative orders',
 assume=['directed maxima: starts from which the iteration depends on rounding may succeed or fail'])

DIFF = 'src/python_bindings/pythondiff2d.cxx'; DSLB = 'src/python_bindings/dsl.cxx'; UTB = 'src/python_bindings/cppmapmodule_utils.cxx'; STB = 'src/python_bindings/cppmapmodule_stats.cxx'
prop('P37', 'Python rectangles, sizes, label tables and digital lines are exact',
 'geomap.Rect2D behaves as a set of pixels: construction (corners, origin + size, setters), moving, resizing, adding borders, scaling, containment of points and rectangles, intersection test, union with rectangles or points, intersection, equality, area, emptiness, indexing and iteration (meshIter) agree with the pixel set, operators leave their operands alone, and pickling restores it. Size2D gives and accepts its components by name and index, adds, negates, scales, compares, prints and pickles. intPos rounds to the nearest pixel. LabelLUT maps every label to its current representative and lists all labels merged into it after any sequence of appends, relabellings, copies. DigitalStraightLine4/8 contain exactly the points with 0 <= a*x - b*y - pos < width, also when mirrored or pickled; addPoint accepts a further point iff all points form a digital straight segment (and then contains all of them, else stays unchanged); tangentDSL on closed contours returns the largest symmetric digitally straight neighbourhood (None for 0), independent of the starting point and of rotations.',
 ['inputs', 'histories'], 'all rectangles, sizes, relabelling sequences, digital lines and closed crack contours',
 'the tests do not touch these classes',
 [DIFF, DSLB, UTB], [('defDiff2D', DIFF), ('LabelLUT binding', UTB), ('DigitalStraightLine bindings / tangentDSL', DSLB)],
 ['attributes and results of the Python objects'],
 'py_bind.py', 100000, 'random rectangles (also empty ones), sizes, relabelling sequences up to 14 steps, lines with slope <= 1 and chains with disturbed steps, contours of random x-monotone regions',
 assume=['union and intersection with empty rectangles are not specified', 'relabelling uses current representatives'])

prop('P38', 'Python raster functions agree with the labels, polylines and pixels',
 'crackConnectionImage marks for every pixel corner exactly the cracks (between different labels, or at the image border) to the right (1), down (2), left (4) and up (8). crackEdgeGraph creates a map of the size of the label image whose faces are exactly its regions (4-connected or, by default, 8-connected with the higher label winning at diagonal crossings) in labelImage() and drawLabelImage(), and leaves the labels alone. drawScannedPoly sets exactly the pixels of the scanlines inside the image and fillScannedPoly the interior of a positively oriented closed polygon, both in place, returning the number of pixels. markEdgeInLabelImage / removeEdgeFromLabelImage count edges per pixel as negative numbers; pixels whose last edge is removed get the substitute label and are returned in scan order. FaceGrayStatistics / FaceRGBStatistics give count, average, variance (also unbiased) and region images over the pixels of every face, before and after operations on the map, also in deep copies with their own map; removed faces raise ValueError (functor: None), labels out of range IndexError; after detachHooks() they no longer change.',
 ['inputs', 'histories'], 'all label images, images, polylines, array layouts and operation sequences',
 'the tests use none of these Python functions on more than one image',
 [UTB, STB, PBIND], [('pyCrackConnectionImage / pyCrackEdgeGraph / pyDrawLabelImage', UTB), ('FaceColorStatisticsWrapper', STB), ('pyFillScannedPoly / pyDrawScannedPoly / markEdgeInLabelImage / removeEdgeFromLabelImage', PBIND)],
 ['resulting images, return values, statistics per face'],
 'py_bind.py', 40000, 'random label images up to 7x6, ' + PYGEN + ', random images of integer values, C and Fortran order',
 assume=['statistics are taken with minSampleCount 0 (supersampling: see P12)', 'images have type float32 (labels for crackEdgeGraph: int32) and one pixel per label'])

prop('P39', 'Python polygon algorithms and dart positions meet their definitions',
 'simplifyPolygon (with or without maximal step) keeps the end points and a subsequence of points such that dropped points are within epsilon of the chords and kept neighbours farther apart than the maximal step were adjacent, collapses polygons closer than epsilon to the chord, and returns polygons with at most two points unchanged. simplifyPolygonDigitalLine turns a chain of unit steps within an octant into one segment per greedily maximal digital straight part (4- and 8-connected), keeping the end points. convexHull returns the closed convex polygon of all extreme points. centroid is the centre of gravity of a simple closed polygon. resamplePolygonLinearInterpolation places ceil(length/distance) segments at equal arc lengths; resamplePolygon gives that many segments as the least squares approximation (exactly with fixed end points for open polygons, numerically approximate for closed ones). polygonSplineControlPoints (at least 3 segments) gives the control points of the cubic spline that is the least squares approximation of the polygon continued periodically or by point reflection. Results have the type of the argument, which stays unchanged, and consistent length and area. DartPosition reports segment, arc length, point and end state of its dart after any sequence of moves by arc length, segment or circle intersection, in both directions, copies being independent.',
 ['inputs', 'histories'], 'all polygons, tolerances, step sizes, darts and move sequences',
 'tests run few of these functions on single shapes; boundary treatment and degenerate polygons are special cases',
 [PH, PBIND, BIND], [('simplifyPolygon / simplifyPolygonDigitalLine', PH), ('resamplePolygon / resamplePolygonLinearInterpolation', PH), ('polygonSplineControlPoints', PH), ('convexHull / centroid', PH), ('DartPosition', HPP)],
 ['points of the results, positions on darts'],
 'py_bind.py', 60000, 'random open and closed polygons (also degenerate and nearly straight ones), digital lines with disturbed steps in all octants, ' + PYGEN)

DP = 'python/maputils/dartpath.py'
prop('P40', 'Dart paths and bundles of parallel edges behave as documented in Python',
 'dartpath.Path behaves as a sequence of darts: points()/polygon() concatenate the polylines of its darts (common nodes once), length() is the sum of the edge lengths, reverse() gives the opposite path (twice: the same), path + dart and path + path concatenate without changing the operands, tangents() composes tangent lists with cumulated arc lengths, contour(dart) is its phi orbit. pathCompare() returns opcodes transforming the first path into the second, _pathString/_pathDecode are inverse. allContinuations(dart, n) lists exactly all paths of n darts beginning with it that neither turn back at once nor use border-protected edges. None of these changes the map. GeoMap.sortEdgesEventually reports exactly the groups of darts of identical edges (keyword or positional arguments), keeps identical edges neighbours, orders all others by where they diverge and leaves planned splits iff requested; splitParallelEdges merges the common beginning of edges along the one with the highest preference (setEdgePreferences) or, by default, the straightest, and leaves a consistent, initializable map.',
 ['inputs', 'histories'], 'all maps, paths, path lengths, bundles in all directions, edge orders and orientations, preferences',
 'tests use neither dart paths nor edge preferences; bundles exist in one orientation only',
 [DP, CPP, BIND], [('Path / pathCompare / allContinuations', DP), ('sortEdgesEventually / splitParallelEdges / setEdgePreferences bindings', BIND), ('sortEdgesInternal', CPP)],
 ['paths', 'unsortable groups', 'node orbits', 'merged edges'],
 'py_paths.py', 12000, PYGEN + '; random walks, edits of paths; bundles of 2..5 nearly parallel edges towards all four directions')

prop('P41', 'Subpixel watersheds and flow lines become the right map in Python',
 'addFlowLinesToMap turns every flow line (start maximum, end maximum, points, ...) into the edge whose label is its index: ends with a positive label are attached to that node; other ends are attached to the nearest node closer than half a pixel (its position is appended, or replaces the end point if that would mean jumping back), or to a new node; loops at one node are left out and returned if an end was attached that way, if they have only two points or less than minLoopArea; the given list is not changed and the map is consistent. geomap.SubPixelWatersheds2/3/5 report size, maxima, saddles and minima (first entry None, none outside of the image or undefined, the same whenever and in whichever order asked, no point twice unless masked); edge(i) contains saddle i at the given index, ends exactly at the maxima whose labels it returns and never descends towards its ends; edges(threshold) has one entry per saddle, None exactly if the saddle is below the threshold, else equal to edge(i).',
 ['inputs'], 'all sets of nodes and flow lines, images, masks, thresholds and spline orders',
 'there is no test of the watershed bindings and of the conversion of flow lines',
 [MU, 'src/python_bindings/subpixel_watersheds.cxx', SPW], [('addFlowLinesToMap', MU), ('SubPixelWatersheds bindings', 'src/python_bindings/subpixel_watersheds.cxx'), ('SubPixelWatersheds::findEdge', SPW)],
 ['nodes and edges of the map', 'returned flow lines', 'lists of critical points', 'edges'],
 'py_paths.py', 12000, 'random nodes on a half-pixel grid and flow lines ending at, near or far from nodes; smoothed random images of 9..16 pixels, optional rectangular masks, random thresholds',
 assume=['flow line ends with two nearest nodes at the same distance are skipped', 'descent of up to 0.2% of the image range and critical points up to 0.01 pixel outside the image are tolerated'])

prop('P42', 'Statistics of pixel-based maps follow every operation and level',
 'CellStatistics of a pixel-based map (without edge rethinning) gives, initially and after every sequence of Euler operations performed through the pyramid: for each face the number, sum and sum of squares (average, variance) of the original image over the pixels of the original faces and edges merged into it (pixels outside the image and of removed nodes do not count; the infinite face starts empty); for each edge the number and average of the gradient values over the pixels of its original edges and of the nodes merged between them (edges at the infinite face: one maximal value); the chain (mergedEdges_) of all original edges an edge consists of; the centres of all nodes; and the bounding box of everything changed since clearLastChanges(). Levels reconstructed from the pyramid have the statistics they had when created; the original and copies are independent. protectEdge() sets or clears the given flag on all original edges of an edge and returns whether that changed anything, edgeProtected() tells whether any flag is set on any of them, edges at the infinite face are protected as border, and automatic protection protects exactly the edges whose share of edgel pixels exceeds the threshold (initially, and again for every merged edge inside the image).',
 ['inputs', 'histories'], 'all maps, images, operation sequences, protections and level visits',
 'there is no test of CellStatistics at all',
 ['src/cellimage/cellstatistics.hxx', 'src/cellimage/cellstatistics.cxx', 'src/cellimage/statisticfunctor.hxx'], [('CellStatistics', 'src/cellimage/cellstatistics.hxx'), ('CellStatistics::CellStatistics', 'src/cellimage/cellstatistics.cxx'), ('StatisticFunctor', 'src/cellimage/statisticfunctor.hxx')],
 ['statistics of all cells, protection flags, changed rectangle, levels'],
 'cell', 12000, IMGGEN + '; random images, up to 25 operations, protections and level visits', assume=['doEdgeRethinning is off (see DESIGN.md)'])

prop('P43', 'Derivative filters and filtering image iterators match their definitions',
 'gradient computes the symmetric differences (f(x+1)-f(x-1))/2 in x and y with repeated border pixels, gradientMagnitude their Euclidean norm (for RGB: over all channels; for integer images truncated; also from two given gradient images), determinantOfHessian and eigenvaluesOfHessian (first the larger, then the smaller one) the determinant and eigenvalues of the matrix of iterated symmetric differences, all for images of any size from 2x2 pixels and for parts of images selected with crop, without changing the source or pixels outside the part. An ImageFilterIterator visits exactly the pixels of its rectangle for which the predicate holds, each once in scan order, then is atEnd() and equal to the lower right iterator; copies are independent, post-increment returns the old position.',
 ['inputs'], 'all images and rectangles',
 'these templates have no tests',
 [CI + 'gradient.hxx', CI + 'hessematrix.hxx', CI + 'imagefilteriterator.hxx', CI + 'crop.hxx'], [('gradient / gradientMagnitude', CI + 'gradient.hxx'), ('determinantOfHessian / eigenvaluesOfHessian', CI + 'hessematrix.hxx'), ('ImageFilterIterator', CI + 'imagefilteriterator.hxx'), ('crop', CI + 'crop.hxx')],
 ['resulting images, visited pixels'],
 'rast', 150000, 'random images of 2..9 x 2..9 pixels (noise with various ranges, quadratic functions), float, double, int, RGB; random parts and masks', assume=['findSaddles does not compile with the installed vigra and is not checked'])

prop('P44', 'The consistency check accepts valid maps and rejects broken ones',
 'checkConsistency() returns true for every valid map: before and after sorting and initialization and after any history of Euler operations; also for a graph whose darts are put in another order around their nodes before initialization. It returns false when setSigmaMapping() gave two darts the same successor or put darts of different nodes into one orbit; after initialization, when the darts of one node form two orbits or when the orders around the nodes are those of no planar map (genus above 0); and when an edge has fewer than two points, does not end at the positions of its nodes, or its length or partial area (queried before) no longer equals that of its points.',
 ['inputs', 'histories'], 'all maps, histories, rotation systems and single corruptions of the listed kinds',
 'tests only call checkConsistency() on valid maps; whether it notices a broken one is never tested',
 [CPP], [('GeoMap::checkConsistency', CPP), ('GeoMap::setSigmaMapping', CPP), ('initContours', CPP)],
 ['result of checkConsistency()'],
 'gm_build', 40000, MAPGEN.split('; or')[0] + '), then one corruption through the public interface', assume=[EXACT])

ORACLE = {
'P44': 'what was corrupted decides the expected answer; genus from the Euler characteristic of the rotation system computed independently',
'P43': 'the definitions evaluated per pixel in double precision',
'P42': 'sums over the pixel sets of the map before every operation, a model of the sets of original edges and of the flags',
'P40': 'concatenation of the polylines read from the map, recursive enumeration of all paths, the construction of the bundle',
'P41': 'a model of the attachment rules on plain lists; values read through the SplineImageView of vigra',
'P37': 'pixel sets, union-find array, brute-force search for a line containing all points',
'P38': 'direct enumeration of cracks, union-find regions, exact point-in-polygon, per-pixel edge counters, statistics recomputed from the pixels of each face',
'P39': 'definitions: chord distances, brute-force greedy digital line segmentation, cross products, dense least squares solution, normal equations of the spline with exact quadrature, arc length model',
'P27': 'gradient and Hessian evaluated through the spline view, an independent Newton iteration from perturbed starts (completeness), brute force over all maxima',
'P34': 'the definitions evaluated per pixel / facet, an independent Newton iteration along the line, dense weighted sums',
'P35': 'the pixels of the cell image (brute force), and the state before an operation transformed by definition',
'P28': 'the list of all (value, length) pairs, evaluated by definition',
'P29': 'Python lists / tuples as models; geometry evaluated by definition (minimum over all segments, exact lattice arithmetic)',
'P33': 'independent evaluation of the definitions (dense sums over all points of the explicitly extended polyline, numpy least squares)',
'P01': 'independent planar embedding (exact arithmetic on dyadic coordinates): sorts darts by angle, traces contours, nests them by point-in-polygon, and is compared with every orbit, face label, contour and anchor of the map after every operation; plus checkConsistency()',
'P02': 'quantities recomputed from the polylines read back from the map; random subsets of the caches are filled before every operation',
'P03': 'brute-force pixel/segment intersection and point location in the embedding of P01, per pixel',
'P04': 'per-operation specification over full state snapshots before/after (cells, flags, geometry, pixels, LUT), incl. illegal calls that must throw and change nothing',
'P07': 'point location in the embedding of P01; linear search for the nearest node',
'P08': 'model of the node/edge lists as inserted and edited; embedding of P01 after initialization; metamorphic: permuted insertion order gives the same face areas',
'P09': 'union-find region labelling of the image (4- or 8-connected with the diagonal rule) and direct enumeration of the cracks between pixels',
'P13': 'std::vector model of the points, all quantities recomputed from it',
'P14': 'brute-force segment/pixel intersection and exact point-in-polygon per pixel',
'P15': 'definition: subsequence, distance of every dropped point to the chord, convexity by cross products, extreme points by brute force',
'P30': 'reference resampling / Gaussian mean by direct summation over the continued polygon; metamorphic translation and rotation',
'P23': 'flood fill of the image for the regions; combinatorial invariants (permutations, inverses, Euler formula, 8-connected boundary components) over the real cell lists and cell image',
'P24': 'per-operation specification over full states (pixel sets of all cells, degrees, end nodes, faces of edges, contour counts) plus all invariants of P23 after every operation',
'P25': 'model: list of states recorded when each level was created (by performing the same operation on a copy of the map), compared with every reconstructed level; recording statistics object',
'P05': 'recorder connected to every hook logging arguments and a full snapshot per call; the log is matched against the protocol of the operation and the snapshots before/after',
'P06': 'full snapshots: copy == original, lockstep operations stay equal, untouched sibling unchanged; plus the embedding oracle on the survivor',
'P10': 'multiset of line segments before minus removed edges; node degrees; counts derived from the snapshots; all oracles of P01-P03 afterwards',
'P11': 'flag model decides which operation must be refused (state unchanged) and which must succeed',
'P12': 'statistics recomputed from the pixels of the resolved label image and the image after every operation',
'P16': 'union-find array, std::vector with linear search, and std::vector filtering as reference models',
'P17': 'model (segment, arc length, end flag) over the points of the polyline',
'P18': 'depth-first order of the generated tree (children sorted by angle); direct sorting for separated edges',
'P26': 'brute force over all slopes a/b: do the points lie between two lines at the right distance; direct evaluation of the inequality',
'P31': 'brute-force segment/pixel intersection and point location in the embedding of P01, per pixel',

'P36': 'values recomputed from an explicit model (point sets, sample multisets, sets of initial edges, minima) that is updated with every operation',
'P19': 'full snapshots of the Python-visible state (original before/after, copy), faceAt on a grid, lockstep operations on both maps, sibling unchanged',
'P20': 'agreement between redundant queries, quantities recomputed in Python, callback log with snapshots against the protocol of every operation',
'P21': 'multisets of line segments, partition of the plane sampled on a grid and union-find over the faces predict the result of every helper; callback-counted operations; replay of recorded histories on a copy',
'P22': 'Kruskal weight with union-find, brute-force bottleneck reachability, explicit heap model of seeded region growing, sorted cost lists',
'P32': 'definitions evaluated by brute force over all darts; isomorphism check (geometry, flags, end nodes, sigma) along the reported correspondence',
}
