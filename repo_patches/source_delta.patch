From 5f37431a73988a327f3c2b32ad18fa99c98155c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:14 +0000
Subject: [PATCH 01/65] fix: merging edges dereferenced NULL when only the
 survivor's scanlines were cached

---
 src/geomap/cppmap.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index d0b3230..d46baf8 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -200,9 +200,10 @@ void GeoMap::Edge::concatenate(Edge &other, bool atEnd, bool reverse)
 
     if(scanLines_.get())
     {
-        if(reverse) // FIXME: call other.scanLines() (might be NULL)
-            other.scanLines_->reverse();
-        (*scanLines_) += other.scanLines();
+        vigra::Scanlines otherScanLines(other.scanLines());
+        if(reverse)
+            otherScanLines.reverse();
+        (*scanLines_) += otherScanLines;
     }
 }
 
-- 
2.43.0


From 0093b43159ca1f5dda42665fe32558b0121c5f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:14 +0000
Subject: [PATCH 02/65] fix: splitEdge kept stale scanlines of the shortened
 edge in maps without label image

---
 src/geomap/cppmap.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index d46baf8..d45d374 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1938,9 +1938,9 @@ GeoMap::EdgePtr GeoMap::splitEdge(
             changedNode.anchor_ = -(int)result->label();
     }
 
+    edge.scanLines_.reset();
     if(labelImage_)
     {
-        edge.scanLines_.reset();
         rawAddEdgeToLabelImage(edge.scanLines(), *labelImage_, -1);
         rawAddEdgeToLabelImage(result->scanLines(), *labelImage_, -1);
     }
-- 
2.43.0


From 2b68c1bb4af3fda555fd9d67673c4d3b55b1c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:14 +0000
Subject: [PATCH 03/65] fix: setHasLabelImage overwrote faces within holes and
 accumulated the infinite face's pixelArea

---
 src/geomap/cppmap.cxx | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index d45d374..44242fe 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -980,6 +980,14 @@ typedef vigra::MultiArray<2, int> LabelImage;
 void markEdgeInLabelImage(
     const vigra::Scanlines &scanlines, LabelImage &labelImage);
 
+struct OuterContourAreaCompare
+{
+    bool operator()(const GeoMap::FacePtr &f1, const GeoMap::FacePtr &f2) const
+    {
+        return contourArea(f1->contour()) > contourArea(f2->contour());
+    }
+};
+
 void GeoMap::setHasLabelImage(bool onoff)
 {
     if(onoff == hasLabelImage())
@@ -993,7 +1001,16 @@ void GeoMap::setHasLabelImage(bool onoff)
             LabelImage::size_type(imageSize().width(), imageSize().height()), 0);
         faceLabelLUT_.initIdentity(faces_.size());
 
+        // fill enclosing faces before the ones within their holes:
+        GeoMap::Faces finiteFaces;
         for(FaceIterator it = finiteFacesBegin(); it.inRange(); ++it)
+            finiteFaces.push_back(*it);
+        std::stable_sort(finiteFaces.begin(), finiteFaces.end(),
+                         OuterContourAreaCompare());
+
+        face(0)->pixelArea_ = 0;
+        for(GeoMap::Faces::iterator it = finiteFaces.begin();
+            it != finiteFaces.end(); ++it)
         {
             std::auto_ptr<vigra::Scanlines> scanlines =
                 (*it)->scanLines();
-- 
2.43.0


From 00d7f69c79202f6dfca637f75be32fb09143f122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:31 +0000
Subject: [PATCH 04/65] fix: mergeFaces kept a hole contour as outer contour of
 a survivor lying within the merged face

When the surviving face lies in a hole of the face merged into it, the
outer contour of the merged face becomes the outer contour of the result,
but it was appended to the hole contours instead.
---
 src/geomap/cppmap.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 44242fe..e8f3e8e 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2095,6 +2095,11 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
     Face::AnchorIterator contour2 = mergedFace.findComponentAnchor(
         GeoMap::Dart(removedDart).nextAlpha());
 
+    // if the survivor lies within a hole of mergedFace, mergedFace's
+    // outer contour becomes the outer contour of the result:
+    bool newOuterContour = (contour2 != mergedFace.anchors_.begin());
+    GeoMap::Dart outerAnchor(mergedFace.anchors_.front());
+
     // re-use an old anchor for the merged contour
     if(contour1->edgeLabel() == mergedEdge.label())
     {
@@ -2129,6 +2134,10 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
         survivor.anchors_.splice(survivor.anchors_.end(), mergedFace.anchors_);
 #endif
     }
+    if(newOuterContour)
+        std::iter_swap(survivor.anchors_.begin(),
+                       std::find(survivor.anchors_.begin(),
+                                 survivor.anchors_.end(), outerAnchor));
 
     // relabel region in image
     PixelList associatedPixels;
-- 
2.43.0


From d087222922dba575449cd526362e895f14c13aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:32 +0000
Subject: [PATCH 05/65] fix: hole contours touching other contours were
 embedded into the wrong face

In 8-connected crack edge maps, contours may touch at vertices without a
node.  Testing such vertices against other contours is undefined, so look
at segment centers instead.
---
 src/geomap/cppmap.cxx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index e8f3e8e..6c8be97 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1128,15 +1128,19 @@ void GeoMap::embedFaces(bool initLabelImage)
         }
         else
         {
-            // contour is a hole, determine parent face
+            // contour is a hole, determine parent face (by looking at
+            // segment centers, since vertices may coincide with those
+            // of other contours in 8-connected crack edge maps)
             GeoMap::FacePtr parent = NULL_PTR(GeoMap::Face);
 
             if(initLabelImage)
             {
-                ContourPointIter cpi(anchor);
-                while(cpi.inRange())
+                Vector2 prev(anchor[0]);
+                for(ContourPointIter cpi(anchor); cpi.inRange(); ++cpi)
                 {
-                    GeoMap::LabelImage::difference_type p(detail::intVPos(*cpi++));
+                    GeoMap::LabelImage::difference_type p(
+                        detail::intVPos((prev + *cpi) / 2.0));
+                    prev = *cpi;
                     if(labelImage_->isInside(p))
                     {
                         int parentLabel = (*labelImage_)[p];
@@ -1151,11 +1155,14 @@ void GeoMap::embedFaces(bool initLabelImage)
 
             if(!parent)
             {
+                Vector2 prev(anchor[0]);
                 for(ContourPointIter cpi(anchor); cpi.inRange(); ++cpi)
                 {
+                    Vector2 center((prev + *cpi) / 2.0);
+                    prev = *cpi;
                     for(FaceIterator it = facesBegin(); it.inRange(); ++it)
                     {
-                        if((*it)->contains(*cpi))
+                        if((*it)->contains(center))
                         {
                             parent = *it;
                             goto parent_found; // double break
-- 
2.43.0


From 2e95e6b60d7b6cf9fb64c86a4677304d4ee2b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:32 +0000
Subject: [PATCH 06/65] fix: crackEdgesToMidcracks kept scanlines of the former
 edge geometry

---
 src/geomap/cppmap.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 337c426..c1f9bb1 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -690,6 +690,13 @@ class GeoMap::Edge
             scanLines_ = scanPoly(*this);
         return *scanLines_;
     }
+
+        // replace the geometry (see Vector2Polygon::swap)
+    void swap(Base::Base::Base &points)
+    {
+        Base::swap(points);
+        scanLines_.reset();
+    }
 };
 
 std::string description(GeoMap::Edge const &edge);
-- 
2.43.0


From 9161bb91bd42f32d24182d7dab755d2f85cf4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:58 +0000
Subject: [PATCH 07/65] fix: Node::setPosition left cached edge and face
 geometry stale

---
 src/geomap/cppmap.cxx | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 6c8be97..a5d7ad9 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2210,15 +2210,12 @@ void GeoMap::Node::setPosition(const Vector2 &p)
         GeoMap::Dart d(map_, anchor_);
         do
         {
-            if(d.label() > 0)
-            {
-                (*map_->edge(d.label()))[ 0] = p;
-            }
-            else
-            {
-                GeoMap::Edge &edge(*map_->edge(-d.label()));
-                edge[edge.size()-1] = p;
-            }
+            GeoMap::Edge &edge(*d.edge());
+            edge.setPoint(d.label() > 0 ? 0 : edge.size()-1, p);
+            edge.scanLines_.reset();
+            if(map_->mapInitialized())
+                d.leftFace()->setFlag(
+                    Face::BOUNDING_BOX_VALID | Face::AREA_VALID, false);
         }
         while(d.nextSigma().label() != anchor_);
     }
-- 
2.43.0


From a7020528d751e96f4154b7c3b6a7081104554ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 08/65] fix: appending points to a polygon counted twice the
 added partial area

---
 src/geomap/polygon.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 22cc271..de615e5 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -352,7 +352,7 @@ class Polygon : public PointArray<POINT>
                 length_ += (v - this->points_.back()).magnitude();
             if(partialAreaValid_)
                 partialArea_ += (v[0]*this->points_.back()[1] -
-                                      v[1]*this->points_.back()[0]);
+                                 v[1]*this->points_.back()[0]) / 2.0;
         }
         Base::push_back(v);
     }
@@ -380,7 +380,7 @@ class Polygon : public PointArray<POINT>
                 if(partialAreaValid_)
                     partialArea_ +=
                         (other.points_.front()[0]*this->points_.back()[1] -
-                         other.points_.front()[1]*this->points_.back()[0]);
+                         other.points_.front()[1]*this->points_.back()[0]) / 2.0;
             }
         }
         if(lengthValid_)
-- 
2.43.0


From 308593580f072618d2aca6ca5999af4c751c6cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 09/65] fix: BBoxPolygon::setPoint did not enlarge the cached
 bounding box

---
 src/geomap/polygon.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index de615e5..9e0c569 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -652,6 +652,8 @@ class BBoxPolygon : public Polygon<POINT>
                ((x[1] > this->points_[pos][1]) &&
                 (this->points_[pos][1] == boundingBox_.begin()[1])))
                 boundingBoxValid_ = false;
+            else
+                boundingBox_ |= x;
         }
         Base::setPoint(pos, x);
     }
-- 
2.43.0


From 388f2d0eed1ea0e583498e7a8c3fb66525bf9ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 10/65] fix: clearing or invalidating a polygon kept cached
 quantities

---
 src/geomap/polygon.hxx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 9e0c569..15ff751 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -281,6 +281,12 @@ class Polygon : public PointArray<POINT>
         partialAreaValid_ = false;
     }
 
+    void clear()
+    {
+        Base::clear();
+        invalidateProperties();
+    }
+
     double length() const
     {
         if(!lengthValid_)
@@ -625,6 +631,18 @@ class BBoxPolygon : public Polygon<POINT>
         return boundingBox_;
     }
 
+    void invalidateProperties()
+    {
+        Base::invalidateProperties();
+        boundingBoxValid_ = false;
+    }
+
+    void clear()
+    {
+        Base::clear();
+        boundingBoxValid_ = false;
+    }
+
     void push_back(const_reference v)
     {
         if(boundingBoxValid_)
-- 
2.43.0


From eb75869ee535df2fe14c781697373146aa0bc672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:23 +0000
Subject: [PATCH 11/65] fix: convexHull lost extremal points and returned
 non-convex polygons

Comparing angles only is no strict weak ordering if duplicates of the
reference point take part in the sorting, and Graham's scan dropped the
farthest of several points in the same direction depending on their order.
---
 src/geomap/polygon.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 15ff751..0dc3c00 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -772,7 +772,11 @@ struct CCWCompare
 
     bool operator()(const Point &a, const Point &b) const
     {
-        return (a[1]-p0_[1])*(b[0]-p0_[0]) - (a[0]-p0_[0])*(b[1]-p0_[1]) > 0;
+        typename Point::value_type cross =
+            (a[1]-p0_[1])*(b[0]-p0_[0]) - (a[0]-p0_[0])*(b[1]-p0_[1]);
+        if(cross == 0) // same direction (or p0 itself): closest point first
+            return (a-p0_).squaredMagnitude() < (b-p0_).squaredMagnitude();
+        return cross > 0;
     }
 };
 }
-- 
2.43.0


From cfaf406773c6601d0599936055d755cb6a559978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:06 +0000
Subject: [PATCH 12/65] fix: Gaussian resampling of closed polygons hung when a
 long closing segment exceeded the filter's reach

---
 src/geomap/polygon.hxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 0dc3c00..bcf29ff 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1410,16 +1410,13 @@ singleGaussianConvolvePolygonCyclic(
     ValueType sum(vigra::NumericTraits<ValueType>::zero());
     double norm = 0.0;
 
-    int size = arcLengthList.size() - 1,
-        lastIndex = size - 1;
+    int size = arcLengthList.size() - 1;
     double totalLength = arcLengthList[size];
 
     for(int j = i; true; ++j)
     {
         int k = j % size;
-        double pos = j > lastIndex
-                        ? arcLengthList[k] + totalLength
-                        : arcLengthList[k];
+        double pos = arcLengthList[k] + (j / size) * totalLength;
         ValueType point = pointList[k];
         double diff = pos - arcLengthPos;
         if(diff > g.radius())
-- 
2.43.0


From 7a264aea407d67c927a35e89efdf934b3acab6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:39 +0000
Subject: [PATCH 13/65] fix: merging faces or edges of pixel-based maps read
 out of range for singular darts

---
 src/cellimage/foureightsegmentation.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cellimage/foureightsegmentation.cxx b/src/cellimage/foureightsegmentation.cxx
index d89924f..bc0e309 100644
--- a/src/cellimage/foureightsegmentation.cxx
+++ b/src/cellimage/foureightsegmentation.cxx
@@ -237,6 +237,7 @@ GeoMap::FaceInfo &GeoMap::mergeFaces(const DartTraverser & dart)
 {
     //std::cerr << "mergeFaces(" << dart << ")\n";
     validateDart(dart);
+    vigra_precondition(!dart.isSingular(), "GeoMap::mergeFaces(): dart is singular");
     // merge smaller face into larger one:
     DartTraverser removedDart = dart;
     if(dart.leftFace().bounds.area() < dart.rightFace().bounds.area())
@@ -387,6 +388,7 @@ GeoMap::EdgeInfo &GeoMap::mergeEdges(const DartTraverser & dart)
     //std::cerr << "mergeEdges(" << dart << ")\n";
     // merge smaller edge (mergedEdge) into larger one (survivor):
     validateDart(dart);
+    vigra_precondition(!dart.isSingular(), "GeoMap::mergeEdges(): dart is singular");
     DartTraverser dart1(dart);
     dart1.nextSigma();
     bool firstIsSmaller =
-- 
2.43.0


From 35e83bd5df88deffb230af8a6a3270478c4ac1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:39 +0000
Subject: [PATCH 14/65] fix: operations refused by a CellPyramid stayed in its
 history and raised the wrong exception

---
 src/cellimage/cellpyramid.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index 57db2a0..9a917ef 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -315,9 +315,9 @@ class CellPyramid
         CellInfo *result = NULL;
         if(!composing_)
         {
+            history_.push_back(Operation(t, p));
             try
             {
-                history_.push_back(Operation(t, p));
                 result = &topLevel_.performOperation(history_.back());
                 ++topLevel_.index_;
                 if(topLevel_.subIndex_ >= nextCheckpointLevelIndex_)
@@ -325,7 +325,7 @@ class CellPyramid
             }
             catch(...)
             {
-                cutAbove(topLevel_.index());
+                history_.pop_back();
                 throw;
             }
         }
-- 
2.43.0


From e28bbacf8a8bc858673a6955489087251bb49fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:08 +0000
Subject: [PATCH 15/65] fix: replaying an empty composite operation of a
 CellPyramid dereferenced NULL

---
 src/cellimage/cellpyramid.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index 9a917ef..fee05b4 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -447,6 +447,12 @@ class CellPyramid
         if(!--composing_)
         {
             Operation &last(history_.back());
+            if(last.opList->empty())
+            {
+                // nothing happened, performOperation() could not return any cell
+                history_.pop_back();
+                return;
+            }
             if(last.opList->size() == 1)
             {
                 History *h = last.opList;
-- 
2.43.0


From fe5ae55b468a94bcb8e8b11d4e4d2da54f73f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:37 +0000
Subject: [PATCH 16/65] fix: CellPyramid::changeIntoComposite counted its level
 twice and kept a checkpoint of the incomplete level

---
 src/cellimage/cellpyramid.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index fee05b4..79d2c1f 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -438,6 +438,8 @@ class CellPyramid
             Operation tmp(last);         // copy old
             last = Operation();          // create composite
             last.opList->push_back(tmp); // and re-fill with old
+            // the level is not complete (and counted) before endComposite()
+            checkpoints_.erase(topLevel_.index_--);
         }
         ++composing_;
     }
-- 
2.43.0


From 5af41bdebef135124dbde1a69abe6e1f33c96384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:48 +0000
Subject: [PATCH 17/65] fix: EdgeProtection: detach hooks on destruction

---
 src/geomap/cppmap_utils.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geomap/cppmap_utils.hxx b/src/geomap/cppmap_utils.hxx
index d856d9e..a759bc8 100644
--- a/src/geomap/cppmap_utils.hxx
+++ b/src/geomap/cppmap_utils.hxx
@@ -49,6 +49,12 @@ class EdgeProtection : boost::noncopyable
             attachHooks(map);
     }
 
+    ~EdgeProtection()
+    {
+        // the callbacks must not be called on a dead object
+        detachHooks();
+    }
+
     const boost::shared_ptr<GeoMap> map() const
     {
         return map_;
-- 
2.43.0


From 701d1db561cfc6a5e3d8d5e3c7aed27d8d930343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:48 +0000
Subject: [PATCH 18/65] fix: FaceColorStatistics: detach hooks on destruction

---
 src/geomap/facestatistics.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 5613333..64ca220 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -591,6 +591,8 @@ void FaceColorStatistics<OriginalImage>::ensureMinSampleCount(
 template<class OriginalImage>
 FaceColorStatistics<OriginalImage>::~FaceColorStatistics()
 {
+    // the callbacks must not be called on a dead object
+    detachHooks();
     for(unsigned int i = 0; i < functors_.size(); ++i)
         delete functors_[i];
 }
-- 
2.43.0


From b5786f721e594532c4f60ee986c1dab1a0cc91d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:48 +0000
Subject: [PATCH 19/65] fix: FaceColorStatistics: copy owns its own functors

---
 src/geomap/facestatistics.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 64ca220..145308a 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -530,7 +530,7 @@ template<class OriginalImage>
 FaceColorStatistics<OriginalImage>::FaceColorStatistics(
     const FaceColorStatistics &other)
 : originalImage_(other.originalImage_),
-  functors_(other.functors_),
+  functors_(other.functors_.size(), NULL),
   minSampleCount_(other.minSampleCount_),
   superSampled_(other.superSampled_.get()
                 ? (new std::vector<unsigned char>(*other.superSampled_))
@@ -538,6 +538,10 @@ FaceColorStatistics<OriginalImage>::FaceColorStatistics(
   superSampledCount_(other.superSampledCount_),
   maxDiffNorm_(other.maxDiffNorm_)
 {
+    // functors are owned, so the copy needs its own ones
+    for(unsigned int i = 0; i < functors_.size(); ++i)
+        if(other.functors_[i])
+            functors_[i] = new Functor(*other.functors_[i]);
 }
 
 template<class OriginalImage>
-- 
2.43.0


From 36764dcd9242f7829aaa10dc2ce7d1f64123a7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:42 +0000
Subject: [PATCH 20/65] fix: FaceColorStatistics: merging two faces without
 samples gave NaN statistics

---
 src/geomap/facestatistics.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 145308a..fc56df8 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -213,7 +213,9 @@ class FaceColorStatistics
         }
 
         merged_ = *functors_[dart.leftFaceLabel()];
-        merged_(*functors_[dart.rightFaceLabel()]);
+        // merging two empty statistics would result in NaNs
+        if(functors_[dart.rightFaceLabel()]->count())
+            merged_(*functors_[dart.rightFaceLabel()]);
         return true;
     }
 
-- 
2.43.0


From 054f0eeb8793272d7350c655730604aa54294982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:56 +0000
Subject: [PATCH 21/65] fix: FaceColorStatistics: bookkeeping of supersampled
 faces (NULL dereference, stale array)

---
 src/geomap/facestatistics.hxx | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index fc56df8..45167ee 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -231,18 +231,17 @@ class FaceColorStatistics
         *functors_[face.label()] = merged_;
         if(superSampled_.get())
         {
-            if((*superSampled_)[face.label()] && !mergedSS_)
-            {
-                if(!--superSampledCount_)
-                    superSampled_.reset();
-            }
-            (*superSampled_)[face.label()] = mergedSS_;
-
+            if((*superSampled_)[face.label()])
+                --superSampledCount_;
             if((*superSampled_)[mergedLabel])
-            {
-                if(!--superSampledCount_)
-                    superSampled_.reset();
-            }
+                --superSampledCount_;
+            if(mergedSS_)
+                ++superSampledCount_;
+
+            if(superSampledCount_)
+                (*superSampled_)[face.label()] = mergedSS_;
+            else
+                superSampled_.reset();
         }
 
         delete functors_[mergedLabel];
@@ -265,7 +264,8 @@ class FaceColorStatistics
            face.pixelArea() >= minSampleCount_)
         {
             (*superSampled_)[face.label()] = 0;
-            --superSampledCount_;
+            if(!--superSampledCount_)
+                superSampled_.reset();
 
             functors_[face.label()]->reset();
 
-- 
2.43.0


From 6cbf1b59f96e80149b5d475b073f36b8979f1ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:15 +0000
Subject: [PATCH 22/65] fix: removeBridges left REMOVE_BRIDGE set on bridges
 whose removal was refused

---
 src/geomap/cppmap_utils.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap_utils.cxx b/src/geomap/cppmap_utils.cxx
index 06459f1..f90a3e1 100644
--- a/src/geomap/cppmap_utils.cxx
+++ b/src/geomap/cppmap_utils.cxx
@@ -164,7 +164,8 @@ unsigned int removeBridges(GeoMap &map, std::list<CellLabel> &bridges)
                 bridges.erase(it);
             else if(bridge->flag(UNREMOVABLE_BRIDGE))
             {
-                bridge->setFlag(UNREMOVABLE_BRIDGE, false); // clean up
+                bridge->setFlag(UNREMOVABLE_BRIDGE |
+                                GeoMap::Edge::REMOVE_BRIDGE, false); // clean up
                 bridges.erase(it);
             }
         }
@@ -174,6 +175,9 @@ unsigned int removeBridges(GeoMap &map, std::list<CellLabel> &bridges)
         {
             if(map.removeBridge(map.dart(bridges.front())))
                 ++result;
+            else
+                map.edge(bridges.front())->setFlag(
+                    GeoMap::Edge::REMOVE_BRIDGE, false); // clean up
             bridges.erase(bridges.begin());
         }
     }
-- 
2.43.0


From 2d72f03483294bcb0c1fb133f790dfc4e7cd4c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:28 +0000
Subject: [PATCH 23/65] fix: DartPosition can step backwards and reports
 correct arc lengths at the ends

prevSegmentInternal() set segmentStart() and segmentEnd() to the same
point, gotoArcLength() did not update the position when hitting the
start, and intersectCircle() kept a stale partial arc length when
hitting the end.
---
 src/geomap/cppmap.hxx | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index c1f9bb1..d16cdee 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1546,8 +1546,15 @@ class DartPosition
     bool gotoArcLength(double arcLength)
     {
         while(arcLength < arcLength_)
+        {
             if(!prevSegmentInternal())
+            {
+                // hit start
+                position_ = p1_;
+                partialArcLength_ = 0.0;
                 return false;
+            }
+        }
         do
         {
             double rest = arcLength - arcLength_;
@@ -1611,6 +1618,7 @@ class DartPosition
             if(!nextSegmentInternal())
             {
                 position_ = p2_;
+                partialArcLength_ = 0.0;
                 return false;
             }
         }
@@ -1651,17 +1659,24 @@ class DartPosition
 
     bool prevSegmentInternal()
     {
-        if(!segmentIndex_)
+        // when at the end, the last segment has already been left
+        // without increasing segmentIndex_
+        bool wasAtEnd = atEnd();
+        if(!segmentIndex_ && !wasAtEnd)
             return false;
-        // now I assume that pointIter_ can step backwards and still
-        // is inRange():
+        // pointIter_ points to p2_ of the current segment, make it
+        // step back to p1_:
         pointIter_.reverse();
-        p2_ = p1_;
         ++pointIter_;
+        p2_ = *pointIter_;
+        DartPointIter prev(pointIter_);
+        p1_ = *++prev;
         pointIter_.reverse();
-        p1_ = *pointIter_;
         arcLength_ -= (p2_ - p1_).magnitude();
-        --segmentIndex_;
+        if(!wasAtEnd)
+            --segmentIndex_;
+        if(!segmentIndex_)
+            arcLength_ = 0.0; // prevent accumulation of rounding errors
         return true;
     }
 
-- 
2.43.0


From 3783527747ef6dd144c2fb50a35aecb09d1e720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:32 +0000
Subject: [PATCH 24/65] fix: ScanlinesIter no longer reads beyond empty
 scanlines

---
 src/geomap/polygon.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index bcf29ff..e99cf9a 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1928,8 +1928,10 @@ class ScanlinesIter
         while(y < scanlines.endIndex() && !scanlines[y].size())
             ++y;
         if(y < scanlines.endIndex())
+        {
             x = scanlines[y][0].begin;
-        ensureValid();
+            ensureValid();
+        }
     }
 
     ScanlinesIter & operator++()
-- 
2.43.0


From 7b9e95fefe5cc4c779018be96c6bf0c106cdff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:32 +0000
Subject: [PATCH 25/65] fix: drawLabelImage: draw embedded faces after their
 parents, mark all edges

---
 src/geomap/cppmap_utils.hxx | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/geomap/cppmap_utils.hxx b/src/geomap/cppmap_utils.hxx
index a759bc8..5879380 100644
--- a/src/geomap/cppmap_utils.hxx
+++ b/src/geomap/cppmap_utils.hxx
@@ -35,6 +35,7 @@
 #include <boost/bind.hpp>
 #include <vector>
 #include <list>
+#include <map>
 
 class EdgeProtection : boost::noncopyable
 {
@@ -152,16 +153,26 @@ void drawLabelImage(const GeoMap &geomap,
                     DestIterator dul, SizeType ds, DestAccessor a,
                     bool negativeEdgeLabels = true)
 {
+    // only outer contours are filled, so embedded faces must be drawn
+    // after their parents, i.e. in the order of decreasing contour area
+    typedef std::multimap<double, GeoMap::ConstFacePtr> SortedFaces;
+    SortedFaces faces;
     for(GeoMap::ConstFaceIterator
             it = geomap.finiteFacesBegin(); it.inRange(); ++it)
-    {
-        std::auto_ptr<vigra::Scanlines> scanlines =
-            (*it)->scanLines();
-        fillScannedPoly(*scanlines, (int)(*it)->label(),
+        faces.insert(SortedFaces::value_type(
+                         -contourArea(*(*it)->contoursBegin()), *it));
+
+    for(SortedFaces::const_iterator it = faces.begin(); it != faces.end(); ++it)
+        fillScannedPoly(*it->second->scanLines(), (int)it->second->label(),
                         dul, ds, a);
-        if(negativeEdgeLabels)
-            vigra::drawScannedPoly(*(*it)->scanLines(), -1,
-                                   dul, ds, a);
+
+    if(negativeEdgeLabels)
+    {
+        // mark all edges, including those that are not part of any
+        // finite face's outer contour
+        for(GeoMap::ConstEdgeIterator
+                it = geomap.edgesBegin(); it.inRange(); ++it)
+            vigra::drawScannedPoly((*it)->scanLines(), -1, dul, ds, a);
     }
 
     if(!negativeEdgeLabels)
-- 
2.43.0


From fa4fb68a7088df29f8d5ccdeef41c6e9de038375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:32 +0000
Subject: [PATCH 26/65] fix: pickling maps without edges accessed the missing
 contour of the infinite face

---
 src/python_bindings/cppmapmodule.cxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 84608fa..aa1c1e2 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -651,7 +651,9 @@ struct GeoMapPickleSuite : bp::pickle_suite
         for(GeoMap::FaceIterator it = map.facesBegin(); it.inRange(); ++it)
         {
             faceFlags.append((*it)->flags() & ~0xf0000000U);
-            faceAnchors.append((*it)->contour().label());
+            // (the infinite face has no contours if there are no edges)
+            faceAnchors.append((*it)->contoursBegin() != (*it)->contoursEnd()
+                               ? (*it)->contour().label() : 0);
             faceLabels.append((*it)->label());
         }
 
@@ -702,12 +704,13 @@ struct GeoMapPickleSuite : bp::pickle_suite
         std::vector<CellLabel> newFaceLabels(map.maxFaceLabel());
         for(i = 0; i < map.faceCount(); ++i)
         {
-            GeoMap::Dart anchor =
-                map.dart(bp::extract<int>(faceAnchors[i])());
-            anchor.leftFace()->setFlag(
+            int anchorLabel = bp::extract<int>(faceAnchors[i])();
+            CellLabel faceLabel =
+                anchorLabel ? map.dart(anchorLabel).leftFaceLabel() : 0;
+            map.face(faceLabel)->setFlag(
                 bp::extract<CellFlags>(faceFlags[i])() & ~(CellFlags)0xf0000000);
             if(hasLabels)
-                newFaceLabels[anchor.leftFaceLabel()] =
+                newFaceLabels[faceLabel] =
                     bp::extract<CellLabel>(faceLabels[i])();
         }
 
-- 
2.43.0


From fde1e51799a977e730af00d310954759e59009ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:50 +0000
Subject: [PATCH 27/65] fix: checkCachedPropertyConsistency ignored hole
 contours and failed for valid maps with holes

---
 python/maputils/maputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 35162c6..31ec6ba 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1054,7 +1054,7 @@ def checkCachedPropertyConsistency(aMap):
     for face in aMap.faceIter():
         bbox = geomap.BoundingBox()
         area = 0.0
-        for dart in face.contour().phiOrbit():
+        for dart in contourDarts(face):
             edge = realPolys[dart.edgeLabel()]
             bbox |= edge.boundingBox()
             if dart.edge().isBridge():
-- 
2.43.0


From f372b2b9e16a1b7374bcfb97b770073b07dd12d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:08 +0000
Subject: [PATCH 28/65] fix: SeededRegionGrowing failed with IndexError if the
 queue ended with outdated entries

---
 python/maputils/maputils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 31ec6ba..43907b9 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -2066,13 +2066,13 @@ class SeededRegionGrowing(AutomaticMethodBase):
 
     def mergeStep(self):
         # fetch candidate Face from queue:
-        while True:
+        while self._queue:
             faceLabel, mergeCost = self._queue.pop()
             face = self._map.face(faceLabel)
             if face and not face.flag(flag_constants.SRG_SEED):
                 break
-
-        assert face, "no more candidate faces found"
+        else:
+            return # only entries of already associated faces were left
 
         # look for neighbor with lowest merge cost:
         best = None
-- 
2.43.0


From 1091a949dc3bc03ccfe0a9791a42a1861170f944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:51 +0000
Subject: [PATCH 29/65] fix: copyMap failed for maps without edges

---
 python/maputils/maputils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 43907b9..2854975 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -918,6 +918,9 @@ def copyMap(sourceMap, edgeTransform = None):
 
     # transfer Face flags using 'em':
     for face in sourceMap.faceIter():
+        if not sourceMap.edgeCount: # infinite face has no contour
+            result.face(0).setFlag(face.flags() & 0x0fffffff)
+            continue
         anchor = face.contour()
         newAnchor = em[abs(anchor.label())].dart()
         if anchor.label() < 0:
-- 
2.43.0


From 75d2817241fcd50ea607715362e9468d979c8b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:25 +0000
Subject: [PATCH 30/65] fix: copyMapContents lost the sigma order of self-loops
 added between the same neighbors

---
 python/maputils/maputils.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 2854975..862eb18 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -885,6 +885,26 @@ def copyMapContents(sourceMap, destMap = None, edgeTransform = None):
         newEdge.setFlag(edge.flags()) # retain Edge flags
         edges[edge.label()] = newEdge
 
+        if edge.startNodeLabel() == edge.endNodeLabel():
+            # addEdge() cannot know the order of the two darts of a
+            # self-loop that are inserted next to each other
+            neighbor = edge.dart()
+            while edges[neighbor.nextSigma().edgeLabel()] is None:
+                pass
+            newNext = newEdge.dart().nextSigma().label()
+            if (neighbor.label() == -edge.label()) != (newNext == -newEdge.label()):
+                sigma = list(destMap.sigmaMapping())
+                origin = len(sigma) // 2
+                first, second = newEdge.label(), -newEdge.label()
+                if newNext != second:
+                    first, second = second, first
+                predecessor = destMap.dart(first).prevSigma().label()
+                successor = destMap.dart(second).nextSigma().label()
+                sigma[origin + predecessor] = second
+                sigma[origin + second] = first
+                sigma[origin + first] = successor
+                destMap.setSigmaMapping(sigma, destMap.edgesSorted())
+
     # now add isolated nodes:
     for node in sourceMap.nodeIter():
         if not nodes[node.label()]:
-- 
2.43.0


From ee0140b8948e62a8ff9e5407d14aa6bed5afac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:19 +0000
Subject: [PATCH 31/65] fix: pointInFace returned points within holes of the
 face

---
 python/maputils/maputils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 862eb18..75182ee 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1711,8 +1711,11 @@ def pointInFace(face, level = 2):
         inside = 0
         x = 0
         for seg in sl[y]:
-            if inside and x < seg.begin:
-                return (x, y)
+            while inside and x < seg.begin:
+                # scanLines() does not take holes into account
+                if face.contains((x, y)):
+                    return (x, y)
+                x += 1
             x = seg.end
             inside += seg.direction
 
-- 
2.43.0


From df44e2cb54bfb25b9586c768e833af0ed4ac5050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 32/65] fix: Polygon::closed() read the first and last point of
 an empty polygon

---
 src/geomap/polygon.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index e99cf9a..50bb453 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -312,7 +312,8 @@ class Polygon : public PointArray<POINT>
         /// Returns true iff the last and first points are equal.
     bool closed() const
     {
-        return this->points_[this->size()-1] == this->points_[0];
+        return this->size() &&
+            this->points_[this->size()-1] == this->points_[0];
     }
 
         /**
-- 
2.43.0


From bfd1a7e8627e47390a4390a27a5e468febabe637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 33/65] fix: points of Python Scanlines did not keep the
 Scanlines object alive

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index bbb0bca..470d973 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1932,7 +1932,7 @@ void defPolygon()
         .def("startIndex", &Scanlines::startIndex)
         .def("endIndex", &Scanlines::endIndex)
         .def("points", &createScanlinesIter,
-             with_custodian_and_ward_postcall<1, 0>())
+             with_custodian_and_ward_postcall<0, 1>())
     ;
 
     RangeIterWrapper<ScanlinesIter>("_ScanlinesIter");
-- 
2.43.0


From 07f896cee510448e10d5766d5182e14cf228e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 34/65] fix: deleting the point after the last one of a Polygon
 corrupted memory

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 470d973..0122033 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -188,7 +188,7 @@ void insert(Polygon & p, int pos, typename Polygon::const_reference x)
 template<class Polygon>
 void erase(Polygon & p, int pos)
 {
-    checkPythonIndex(pos, p.size() + 1);
+    checkPythonIndex(pos, p.size());
     p.erase(p.begin() + pos);
 }
 
-- 
2.43.0


From 965bc46b58685c73699210dff5ebd27c063b0665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 35/65] fix: curvatureList accepted a zero step and read out of
 bounds

---
 src/python_bindings/polygon.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 0122033..ccf5932 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -346,6 +346,13 @@ list curvatureList(const Array &p, int dx = 5, unsigned int skip = 0)
         throw_error_already_set();
     }
 
+    if(dx < 1)
+    {
+        PyErr_SetString(PyExc_ValueError,
+            "curvatureList: dx too small (must be >= 1)");
+        throw_error_already_set();
+    }
+
     double pos = 0.0;
     for(unsigned int i = 0; i < dx + skip - 1; ++i)
         pos += (p[i+1]-p[i]).magnitude();
-- 
2.43.0


From 97cbf63b5b4eca88a02e2032f95689d5ca88a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 36/65] fix: appendTangentList shifted the second list by the
 angle of the first one

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index ccf5932..895c6f7 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1452,7 +1452,7 @@ double appendTangentList(
 {
     ContinuousDirection makeContinuous;
     if(len(tangents1))
-        makeContinuous.prevAngle = extract<double>(tangents1[-1]);
+        makeContinuous.prevAngle = extract<double>(tangents1[-1][1]);
 
     return appendTangentList(tangents1, arcLengthOffset,
                              tangents2, offset, makeContinuous);
-- 
2.43.0


From 55525737c9c41c9b96e9555bc8347f5a400196a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 37/65] fix: estimateThirdDerivative used a wrong distance for
 the last points

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 895c6f7..a845eb6 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -962,7 +962,7 @@ Point estimateThirdDerivative(Iterator points, Iterator end, int index, double d
     for(; k>-size; --k)
     {
         d = points[k].arcLength - a0;
-        if(d < -dist)
+        if(d < -2.0*dist)
             break;
     }
     vigra_invariant(k>-size,
-- 
2.43.0


From 6eb36d289589aff5cbbe67c0a4cb478d76b9d22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 38/65] fix: singleGaussianConvolveAtArcLength swapped the
 normalizations of both sides

---
 src/python_bindings/polygon.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index a845eb6..c96638c 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -479,7 +479,7 @@ tuple singleGaussianConvolveAtArcLength(
 
     ValueType sum(vigra::NumericTraits<ValueType>::zero());
 
-    double lnorm = 0.0;
+    double rnorm = 0.0;
     for(int j = i; j < len(arcLengthList); ++j)
     {
         tuple posCurv((extract<tuple>(arcLengthList[j])()));
@@ -489,10 +489,10 @@ tuple singleGaussianConvolveAtArcLength(
         ValueType curv = extract<ValueType>(posCurv[1])();
         double w(g(dist));
         sum += w*curv;
-        lnorm += w;
+        rnorm += w;
     }
 
-    double rnorm = 0.0;
+    double lnorm = 0.0;
     for(int j = i - 1; j >= 0; --j)
     {
         tuple posCurv((extract<tuple>(arcLengthList[j])()));
@@ -502,7 +502,7 @@ tuple singleGaussianConvolveAtArcLength(
         ValueType curv = extract<ValueType>(posCurv[1])();
         double w(g(dist));
         sum += w*curv;
-        rnorm += w;
+        lnorm += w;
     }
 
     if(!g.derivativeOrder())
@@ -513,7 +513,7 @@ tuple singleGaussianConvolveAtArcLength(
         if(disparity > 0)
             sum += disparity * extract<ValueType>(arcLengthList[0][1])();
         else
-            sum += -disparity * extract<ValueType>(arcLengthList[-1][1])();
+            sum += disparity * extract<ValueType>(arcLengthList[-1][1])();
     }
     else
     {
-- 
2.43.0


From 64fe16e9166d79a1425705f8ee55721d0e329d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 39/65] fix: PolylineStatistics::max() was wrong for negative
 values

---
 src/python_bindings/statistics.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index 12f6b33..4541875 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -51,7 +51,7 @@ class PolylineStatistics
     : weightedSum_(0),
       length_(0),
       min_(vigra::NumericTraits<double>::max()),
-      max_(vigra::NumericTraits<double>::min())
+      max_(-vigra::NumericTraits<double>::max())
     {}
 
 //     PolylineStatistics(const PointArray<Vector2> &poly, object siv)
@@ -73,7 +73,7 @@ class PolylineStatistics
     : weightedSum_(0),
       length_(0),
       min_(vigra::NumericTraits<double>::max()),
-      max_(vigra::NumericTraits<double>::min())
+      max_(-vigra::NumericTraits<double>::max())
     {
         for(unsigned int i = 0; i < poly.size() - 1; ++i)
         {
-- 
2.43.0


From 6be3dedd1efdd29c04da8c3a50cc7e5d02080427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 40/65] fix: QuantileStatistics used uninitialised sorting
 state

---
 src/python_bindings/statistics.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index 4541875..1d199dd 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -152,10 +152,12 @@ class QuantileStatistics : public PolylineStatistics
 
   public:
     QuantileStatistics()
+    : sorted_(false)
     {}
 
     QuantileStatistics(const PointArray<Vector2> &poly,
                        const SplineImageView<5, GrayValue> &siv)
+    : sorted_(false)
     {
         for(unsigned int i = 0; i < poly.size() - 1; ++i)
         {
@@ -241,6 +243,7 @@ class QuantileStatisticsPickleSuite : public boost::python::pickle_suite
             w.segments_[i].first = extract<double>(segments[i][0])();
             w.segments_[i].second = extract<double>(segments[i][1])();
         }
+        w.sorted_ = false;
     }
 };
 
-- 
2.43.0


From caecd60c9227db04888bf2ee3536f0669fab5285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 41/65] fix: tangentLists crashed for short polygons due to
 unsigned underflow

---
 src/python_bindings/polygon.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index c96638c..c4e8b10 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -856,7 +856,7 @@ list tangentListNormalizedGaussian(const Array1 &points, const Array2 &confidenc
 
     list result;
     ContinuousDirection makeContinuous;
-    for(unsigned int i = 0; i < size; ++i)
+    for(int i = 0; i < (int)size; ++i)
     {
         Point  sp = p[i].confidence*p[i].point, spp = Point(0.0, 0.0);
         double sw = p[i].confidence, swp = 0.0;
@@ -1038,7 +1038,7 @@ list tangentListNormalizedGaussianOptimal(const Array1 &points, const Array2 &co
 
     list result;
     ContinuousDirection makeContinuous;
-    for(unsigned int i = 0; i < size; ++i)
+    for(int i = 0; i < (int)size; ++i)
     {
         double q3 = norm(estimateThirdDerivative<Point>(p, p + size, i, dist));
         double scale = std::pow(0.75/sqrt(M_PI)/sq(p[i].confidence*q3), 1.0/7.0);
@@ -1096,7 +1096,7 @@ list tangentListNormalizedGaussianVariableScale(
 
     list result;
     ContinuousDirection makeContinuous;
-    for(unsigned int i = 0; i < size; ++i)
+    for(int i = 0; i < (int)size; ++i)
     {
         double scale = scales[i];
         double s2 = scale*scale;
-- 
2.43.0


From a628fe49a1de0f554afc28cea54ee422db69f7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 42/65] fix: BoundingBox.begin()/end() raised a TypeError

---
 src/python_bindings/polygon.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index c4e8b10..1283a20 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1902,9 +1902,9 @@ void defPolygon()
         .def(init<const Vector2 &, const Vector2 &>(args("begin", "end")))
         .def("__init__", make_constructor(&createBoxFromRect2D<BoundingBox>))
         .def("begin", (const Vector2 &(BoundingBox::*)() const)
-             &BoundingBox::begin, return_internal_reference<>())
+             &BoundingBox::begin, return_value_policy<copy_const_reference>())
         .def("end", (const Vector2 &(BoundingBox::*)() const)
-             &BoundingBox::end, return_internal_reference<>())
+             &BoundingBox::end, return_value_policy<copy_const_reference>())
         .def("setBegin", &BoundingBox::setBegin, arg("begin"))
         .def("setEnd", &BoundingBox::setEnd, arg("end"))
         .def("moveTo", &BoundingBox::moveTo, arg("newBegin"))
-- 
2.43.0


From 64566ea29396bc31f8fed046260dfd3b867c94ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 43/65] fix: intersectLine interpolated with an outdated
 distance

---
 src/python_bindings/polygon.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 1283a20..56bd697 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1813,6 +1813,7 @@ list intersectLine(
         }
 
         currentPart.push_back(polygon[pointIndex]);
+        prevDist = dist;
     }
 
     if(inside)
-- 
2.43.0


From de54f1351184fa58f1bd5e6a9d7cee3596c30d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 44/65] fix: curvatureList returned NaN for nearly straight
 polygons

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 56bd697..f4e5e2a 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -382,7 +382,7 @@ list curvatureList(const Array &p, int dx = 5, unsigned int skip = 0)
         double gamma = (a2+b2-c2) / (2*a*b), delta;
         if(gamma > -1.0)
         {
-            delta = M_PI - acos(gamma);
+            delta = M_PI - acos(std::min(gamma, 1.0)); // (rounding errors)
             if((s1[0]*s3[1] - s3[0]*s1[1]) < 0)
                 result.append(make_tuple(pos, -2*delta / (a+b)));
             else
-- 
2.43.0


From 03f1c9de21561f726b908b88dd95887e705a9323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 45/65] fix: Polygon.swap(Polygon) left stale cached properties
 in the other polygon

---
 src/python_bindings/polygon.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index f4e5e2a..59257b5 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1884,8 +1884,9 @@ void defPolygon()
         .def("partialArea", &PythonPolygon::partialArea)
         .def("boundingBox", &PythonPolygon::boundingBox)
         .def("contains", &PythonPolygon::contains)
-        .def("swap", (void (PythonPolygon::*)(PythonPolygon &))&PythonPolygon::swap)
         .def("swap", (void (PythonPolygon::*)(Vector2Array &))&PythonPolygon::swap)
+        // (overloads are tried in reverse order; must come after the above)
+        .def("swap", (void (PythonPolygon::*)(PythonPolygon &))&PythonPolygon::swap)
         .def("reverse", &PythonPolygon::reverse)
         .def("nearestPoint", &PythonPolygon::nearestPoint)
         .def("invalidateProperties", &PythonPolygon::invalidateProperties)
-- 
2.43.0


From 809a5af33670bcd2bdce9b12752f8e67bdfd0bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 46/65] fix: tangentListGaussianReflective/Cyclic read out of
 bounds for short polygons

---
 src/python_bindings/polygon.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 59257b5..7792aca 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1304,7 +1304,7 @@ list tangentListGaussianReflective(const Array &points, double sigma, double dif
         arcLengths[i] = norm(points[i] - points[i-1]) + arcLengths[i-1];
 
     Gaussian<> g(sigma);
-    vigra_precondition(arcLengths[size-1] > g.radius(),
+    vigra_precondition(arcLengths[size-1] > g.radius() + diff,
         "tangentListGaussianReflective(): Filter longer than polygon.");
 
     list result;
@@ -1351,7 +1351,7 @@ list tangentListGaussianCyclic(const Array &points, double sigma, double diff =
     double restLength = norm(points[0] - points[size-1]);
 
     Gaussian<> g(sigma);
-    vigra_precondition(arcLengths[size-1] > g.radius(),
+    vigra_precondition(arcLengths[size-1] > g.radius() + diff,
         "tangentListGaussianCyclic(): Filter longer than polygon.");
 
     list result;
-- 
2.43.0


From f155f1c5cfefd1042d97980e11ce622a6b8e9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:57 +0000
Subject: [PATCH 47/65] fix: cellimage sequence access did not check indices

---
 src/cellimage/cellimage_dart+info.cxx | 2 +-
 src/cellimage/cellimage_module.hxx    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cellimage/cellimage_dart+info.cxx b/src/cellimage/cellimage_dart+info.cxx
index d710645..d28c7ac 100644
--- a/src/cellimage/cellimage_dart+info.cxx
+++ b/src/cellimage/cellimage_dart+info.cxx
@@ -158,7 +158,7 @@ void defineDartTraverser()
 GeoMap::DartTraverser &contourGetItem(
 	std::vector<GeoMap::DartTraverser> &contours, long index)
 {
-	if(index >= (long)contours.size())
+	if(index < 0 || index >= (long)contours.size())
 	{
 		PyErr_SetObject(PyExc_IndexError, incref(object(index).ptr()));
 		throw_error_already_set();
diff --git a/src/cellimage/cellimage_module.hxx b/src/cellimage/cellimage_module.hxx
index 525f0b8..da33134 100644
--- a/src/cellimage/cellimage_module.hxx
+++ b/src/cellimage/cellimage_module.hxx
@@ -69,7 +69,7 @@ struct NodeListProxy
 
     vigra::cellimage::GeoMap::NodeInfo &__getitem__(long index)
     {
-        if(index > (long)segmentation_->maxNodeLabel())
+        if(index < 0 || index >= (long)segmentation_->maxNodeLabel())
         {
             PyErr_SetObject(
                 PyExc_IndexError,
@@ -105,7 +105,7 @@ struct EdgeListProxy
 
     vigra::cellimage::GeoMap::EdgeInfo &__getitem__(long index)
     {
-        if(index > (long)segmentation_->maxEdgeLabel())
+        if(index < 0 || index >= (long)segmentation_->maxEdgeLabel())
         {
             PyErr_SetObject(
                 PyExc_IndexError,
@@ -141,7 +141,7 @@ struct FaceListProxy
 
     vigra::cellimage::GeoMap::FaceInfo &__getitem__(long index)
     {
-        if(index > (long)segmentation_->maxFaceLabel())
+        if(index < 0 || index >= (long)segmentation_->maxFaceLabel())
         {
             PyErr_SetObject(
                 PyExc_IndexError,
-- 
2.43.0


From 5d2fba41bd93092d524f80e679d8a399a512993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:57 +0000
Subject: [PATCH 48/65] fix: cellimage.serialize() crashed without vigranumpy
 import

---
 src/cellimage/cellimage_module.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cellimage/cellimage_module.cxx b/src/cellimage/cellimage_module.cxx
index a5031b1..a5dfb5d 100644
--- a/src/cellimage/cellimage_module.cxx
+++ b/src/cellimage/cellimage_module.cxx
@@ -158,6 +158,8 @@ void defineFaces();
 
 BOOST_PYTHON_MODULE_INIT(cellimage)
 {
+    vigra::import_vigranumpy();
+
     enum_<CellType>("CellType")
         .value("Error", CellTypeError)
         .value("Region", CellTypeRegion)
-- 
2.43.0


From 9c78c759546fef3c320edd776f176d453fe73ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:57 +0000
Subject: [PATCH 49/65] fix: cellimage.CellImage(image) could not be called

---
 src/cellimage/cellimage_module.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cellimage/cellimage_module.cxx b/src/cellimage/cellimage_module.cxx
index a5dfb5d..9dea78c 100644
--- a/src/cellimage/cellimage_module.cxx
+++ b/src/cellimage/cellimage_module.cxx
@@ -70,7 +70,7 @@ void setPixel(CellImage & image, vigra::Diff2D const & i, CellPixel const & valu
 
 vigra::cellimage::CellImage *
 convertCellImage(
-    NumpyFImage &image)
+    const NumpyFImage &image)
 {
     vigra::cellimage::CellImage *result = new CellImage(Size2D(image.shape(0), image.shape(1)));
     transformImage(srcImageRange(image), destImage(*result),
-- 
2.43.0


From 6572dd34dcf7b4d5073a77a58eb326c75e441f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:57 +0000
Subject: [PATCH 50/65] fix: StaticEdgeCosts could not be unpickled

---
 python/maputils/statistics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/maputils/statistics.py b/python/maputils/statistics.py
index 2a14490..0354142 100644
--- a/python/maputils/statistics.py
+++ b/python/maputils/statistics.py
@@ -619,12 +619,13 @@ class StaticEdgeCosts(DetachableStatistics):
         return self._costs[dart.edgeLabel()]
 
     def __getstate__(self):
-        return DynamicEdgeStatistics.__getstate__(self) + (
-            self._costs, )
+        return DetachableStatistics.__getstate__(self) + (
+            self._costs, self._combiner)
 
-    def __setstate__(self, (map, tree)):
-        DynamicEdgeStatistics.__setstate__(self, (map, ))
-        self._costs = tree
+    def __setstate__(self, (map, costs, combiner)):
+        self._combiner = combiner # needed by _attachHooks()
+        DetachableStatistics.__setstate__(self, (map, ))
+        self._costs = costs
 
 # formerly, this was called EdgeMergeTree:
 class MergedEdges(DynamicEdgeStatistics):
-- 
2.43.0


From c60c471b9a5cb82678bb686a8dea9d01dd1f3cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:57 +0000
Subject: [PATCH 51/65] fix: WatershedStatistics.nonWatershedEdgesAdded did not
 extend the indices

---
 python/maputils/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/maputils/statistics.py b/python/maputils/statistics.py
index 0354142..888ecd2 100644
--- a/python/maputils/statistics.py
+++ b/python/maputils/statistics.py
@@ -815,7 +815,7 @@ class WatershedStatistics(DynamicEdgeIndices):
         if len(self._passValues) < mel:
             self._passValues.extend([None] * (mel - len(self._passValues)))
             self._indices.extend([[] for i in
-                                  range(mel - len(self._passValues))])
+                                  range(mel - len(self._indices))])
 
     def preMergeEdges(self, dart):
         if not self.__base.preMergeEdges(self, dart):
-- 
2.43.0


From 7b179b143c8bfc55f253d4eb5ee39e44bc8e283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:11 +0000
Subject: [PATCH 52/65] fix: findDirectedMaximum evaluated the derivative only
 at the start point

The Newton iteration never moved the point at which the directional derivative was evaluated, and running out of iterations returned 'Failed' (converted to true).
---
 src/geomap/vigra/subpixel_watershed.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geomap/vigra/subpixel_watershed.hxx b/src/geomap/vigra/subpixel_watershed.hxx
index 0486454..91d5a58 100644
--- a/src/geomap/vigra/subpixel_watershed.hxx
+++ b/src/geomap/vigra/subpixel_watershed.hxx
@@ -399,7 +399,7 @@ findDirectedMaximum(IMAGEVIEW const & image,
     double sxx, syy, stepEpsilon2 = stepEpsilon * stepEpsilon, maxDist2 = maxDist * maxDist;
     for(int i=0; i<100; ++i) // do at most 100 iterations
     {
-        Value d = image.dx(x, y)*nx + image.dy(x, y)*ny;
+        Value d = image.dx(*xx, *yy)*nx + image.dy(*xx, *yy)*ny;
         Value dxx = image.dxx(*xx, *yy);
         Value dxy = image.dxy(*xx, *yy);
         Value dyy = image.dyy(*xx, *yy);
@@ -430,7 +430,7 @@ findDirectedMaximum(IMAGEVIEW const & image,
         if(sxx*sxx + syy*syy > maxDist2) // too far from start
             return false;
     }
-    return Failed;
+    return false;
 }
 
 struct CriticalPointHolder
-- 
2.43.0


From b33f56397752353d530fc08f49b6d37cd98d57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:08 +0000
Subject: [PATCH 53/65] fix: unpickling a Rect2D interpreted its lower right
 corner as its size

---
 src/python_bindings/pythondiff2d.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python_bindings/pythondiff2d.cxx b/src/python_bindings/pythondiff2d.cxx
index 8d84419..25d333e 100644
--- a/src/python_bindings/pythondiff2d.cxx
+++ b/src/python_bindings/pythondiff2d.cxx
@@ -84,7 +84,8 @@ struct Rect2DPickleSuite : python::pickle_suite
 {
     static python::tuple getinitargs(Rect2D const& r)
     {
-        return python::make_tuple(r.upperLeft(), r.lowerRight());
+        // (two points would be indistinguishable from a point and a size)
+        return python::make_tuple(r.left(), r.top(), r.right(), r.bottom());
     }
 };
 
-- 
2.43.0


From 448048cf23337229e9f2fa9125ef00cfac964b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:40 +0000
Subject: [PATCH 54/65] fix: crackConnectionImage() lost connections to the
 left / upwards

---
 src/python_bindings/cppmapmodule_utils.cxx | 24 ++++++++--------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/python_bindings/cppmapmodule_utils.cxx b/src/python_bindings/cppmapmodule_utils.cxx
index efe4021..bd24efa 100644
--- a/src/python_bindings/cppmapmodule_utils.cxx
+++ b/src/python_bindings/cppmapmodule_utils.cxx
@@ -89,27 +89,19 @@ pyCrackConnectionImage(NumpyFImage const &labels)
 
     crackConnectionImage(srcImageRange(labels), destImage(result));
 
-    NumpyFImage::traverser
-        end = result.traverser_end() - TinyVector<int, 2>(Diff2D(1, 1)),
-        row = result.traverser_begin();
-    for(; row.iteratorForDimension(1) < end.iteratorForDimension(1); row.operator++(1))
+    // also mark connections to the left (4) and upwards (8)
+    for(int y = 0; y < result.shape(1); ++y)
     {
-      NumpyFImage::traverser it = row;
-        for(; it.iteratorForDimension(0) < end.iteratorForDimension(0); it.operator++(0))
+        for(int x = 0; x < result.shape(0); ++x)
         {
-            if((int)*it & 1)
-                it[TinyVector<int,2>(Diff2D(1, 0))] = (int)it[TinyVector<int,2>(Diff2D(1, 0))] | 4;
-            if((int)*it & 2)
-                it[TinyVector<int,2>(Diff2D(0, 1))] = (int)it[TinyVector<int,2>(Diff2D(0, 1))] | 8;
+            int connections = (int)result(x, y);
+            if(connections & 1)
+                result(x+1, y) = (int)result(x+1, y) | 4;
+            if(connections & 2)
+                result(x, y+1) = (int)result(x, y+1) | 8;
         }
-        if((int)*it & 2)
-            it[TinyVector<int,2>(Diff2D(0, 1))] = (int)it[TinyVector<int,2>(Diff2D(0, 1))] | 8;
     }
 
-    for(; row.iteratorForDimension(0) < end.iteratorForDimension(0); row.operator++(0))
-        if((int)*row & 1)
-            row[TinyVector<int,2>(Diff2D(1, 0))] = (int)row[TinyVector<int,2>(Diff2D(1, 0))] | 4;
-
     return result;
 }
 
-- 
2.43.0


From 1d2c53947dbe4b12a644b5ecf7ed504fff6324cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:58 +0000
Subject: [PATCH 55/65] fix: scanline drawing functions could not be called
 from Python

fillScannedPoly(), drawScannedPoly(), markEdgeInLabelImage() and
removeEdgeFromLabelImage() took NumpyFImage arguments by non-const
reference, for which no lvalue converter exists, so every call raised an
ArgumentError.
---
 src/python_bindings/polygon.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 7792aca..af5bc92 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -308,7 +308,7 @@ ScanlinesIter createScanlinesIter(const Scanlines &sl)
 
 unsigned int pyFillScannedPoly(
     const Scanlines &scanlines,
-    NumpyFImage &target,
+    NumpyFImage target,
     GrayValue value)
     //const Pixel &value)
 {
@@ -320,7 +320,7 @@ unsigned int pyFillScannedPoly(
 
 unsigned int pyDrawScannedPoly(
     const Scanlines &scanlines,
-    NumpyFImage &target,
+    NumpyFImage target,
     float value)
 {
     return drawScannedPoly(scanlines, value,
@@ -1676,7 +1676,7 @@ struct ParabolaFit
 
 void markEdgeInLabelImage(
     const Scanlines &scanlines,
-    NumpyFImage &labelImage)
+    NumpyFImage labelImage)
 {
     // clip to image range vertically:
     int y = std::max(0, scanlines.startIndex()),
@@ -1709,7 +1709,7 @@ void markEdgeInLabelImage(
 
 list removeEdgeFromLabelImage(
     const Scanlines &scanlines,
-    NumpyFImage &labelImage,
+    NumpyFImage labelImage,
     GrayValue substituteLabel)
 {
     list result;
-- 
2.43.0


From a9a67f3b26bf3d5b10a021ac2817f90f943629bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:14 +0000
Subject: [PATCH 56/65] fix: simplifyPolygonDigitalLine() split digital
 straight lines

As long as the line has width one, all points lie on both leaning lines,
but only the last point of one of them was updated, so in half of the
octants the other one started at an outdated point afterwards and points
of a digital straight line could be rejected.
---
 src/geomap/polygon.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 50bb453..f37d506 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1028,6 +1028,11 @@ void simplifyPolygonDigitalLine(
                 b = l1[0] - l2[0];
                 c = -a*l2[0] - b*l2[1];
             }
+            else if(d >= ab - 1.0)
+            {
+                // width 1: all points are on both leaning lines
+                r2 = poly[k];
+            }
         }
         else if(d >= ab - 1.0)
         {
-- 
2.43.0


From 97b205492d344fcc2b2ae904335aa42361dd23af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:38 +0000
Subject: [PATCH 57/65] fix: simplifyPolygon() crashed on empty polygons

It accessed the first and last point unconditionally; a polygon with a
single point was returned with two points.  Like the other functions,
return polygons with at most two points unchanged.
---
 src/geomap/polygon.hxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index f37d506..bfd0fdc 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -944,6 +944,12 @@ template<class PointArray>
 void simplifyPolygon(
     const PointArray &poly, PointArray &simple, double epsilon)
 {
+    if(poly.size() <= 2)
+    {
+        simple = poly;
+        return;
+    }
+
     simple.push_back(poly[0]);
     simplifyPolygonHelper<false>(poly.begin(), poly.end(), simple, epsilon);
     simple.push_back(poly[poly.size()-1]);
@@ -953,6 +959,12 @@ template<class PointArray>
 void simplifyPolygon(
     const PointArray &poly, PointArray &simple, double epsilon, double maxStep)
 {
+    if(poly.size() <= 2)
+    {
+        simple = poly;
+        return;
+    }
+
     simple.push_back(poly[0]);
     simplifyPolygonHelper<true>(poly.begin(), poly.end(),
                                 simple, epsilon, maxStep*maxStep);
-- 
2.43.0


From 51df13f59d74da57fe0acc6bee66996078886be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:38 +0000
Subject: [PATCH 58/65] fix: resamplePolygon() read out of bounds for fewer
 than two points

---
 src/geomap/polygon.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index bfd0fdc..cb5e706 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1086,6 +1086,12 @@ void resamplePolygon(
     typedef typename PointArray::value_type Point;
 
     int size = poly.size();
+    if(size < 2)
+    {
+        simple = poly;
+        return;
+    }
+
     bool isOpenPolygon = !poly.closed();
 
     ArrayVector<double> arcLength;
-- 
2.43.0


From d38315dd8744e81ef6414fe9baa6f8a61d177d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:05 +0000
Subject: [PATCH 59/65] fix: resamplePolygon() returned polygons with wrong
 length and area

The points of the result were changed through operator[] after they had
been appended, so the incrementally computed properties were outdated.
---
 src/geomap/polygon.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index cb5e706..b2bd009 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1172,19 +1172,22 @@ void resamplePolygon(
 
         ArrayVector<double> g(segmentCount);
         double b = 2.0 / 3.0;
-        simple.push_back(poly[0]);
-        simple.push_back(integrals[1] / b);
+        ArrayVector<Point> p(segmentCount);
+        p[1] = integrals[1] / b;
         for(int k=2; k<segmentCount; ++k)
         {
             g[k] = 1.0 / 6.0 / b;
             b = 2.0 / 3.0 - g[k] / 6.0;
-            simple.push_back((integrals[k] - simple[k-1] / 6.0) / b);
+            p[k] = (integrals[k] - p[k-1] / 6.0) / b;
         }
         for(int k = segmentCount-2; k >= 1; --k)
         {
-            simple[k] -= g[k+1] * simple[k+1];
+            p[k] -= g[k+1] * p[k+1];
         }
 
+        simple.push_back(poly[0]);
+        for(int k=1; k<segmentCount; ++k)
+            simple.push_back(p[k]);
         simple.push_back(poly[size-1]);
     }
     else
-- 
2.43.0


From d23adbf7b6d6c8ea4f16045558f33e221df3f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:49 +0000
Subject: [PATCH 60/65] fix: polygonSplineControlPoints() did not subdivide the
 last segment

The indices of spline knots on the last polygon segment were never set,
which lead to arbitrary control points.
---
 src/geomap/polygon.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index b2bd009..346b9c5 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1614,6 +1614,13 @@ void polygonSplineControlPoints(
             ++l;
         }
     }
+    for(; l < segmentCount; ++l)
+    {
+        // the last segment needs to be subdivided, too
+        augmentedPoly.push_back(poly.interpolate(size-2, (l - arcLength[size-2]) / (arcLength[size-1] - arcLength[size-2])));
+        augmentedArcLength.push_back(l);
+        splineIndices[l] = augmentedPoly.size()-1;
+    }
     augmentedPoly.push_back(poly[size-1]);
     augmentedArcLength.push_back(segmentCount);
     splineIndices[segmentCount] = augmentedPoly.size()-1;
-- 
2.43.0


From 456bd3698642e412e34a77ae7049dd6b4c5da2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:49 +0000
Subject: [PATCH 61/65] fix: polygonSplineControlPoints() lost wrapped
 coefficients

For closed polygons and fewer than seven segments, several spline
coefficients belong to the same control point and have to be summed up.
---
 src/geomap/polygon.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 346b9c5..f9eb92d 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1741,7 +1741,7 @@ void polygonSplineControlPoints(
         for(int k=0; k<solutionSize; ++k)
         {
             for(int l=-3; l<=3; ++l)
-                m(k, (k+l+solutionSize) % solutionSize) = spline7(l);
+                m(k, (k+l+solutionSize) % solutionSize) += spline7(l);
             rhs(k, 0) = integrals[k][0];
             rhs(k, 1) = integrals[k][1];
         }
-- 
2.43.0


From 1c80dbad129ea206f88602b9b746612e0b70a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:01 +0000
Subject: [PATCH 62/65] fix: resamplePolygon() distorted both ends of open
 polygons

The boundary values of the least squares problem were not the end points,
so not even a straight line was resampled to equidistant points.
---
 src/geomap/polygon.hxx | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index f9eb92d..0f524be 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1138,17 +1138,9 @@ void resamplePolygon(
             Point sumt = dt / 6.0 * (p1*(2.0*t1+t2) + p2*(t1+2.0*t2));
             integrals[l-1] += sum1 - sumt;
             integrals[l] += sumt;
-            if(isOpenPolygon && l==1)
-            {
-                integrals[0] +=  poly[0] - integrals[1];
-            }
             p1 = p2;
             t1 = 0.0;
             ++l;
-            if(isOpenPolygon && l==segmentCount)
-            {
-                integrals[segmentCount] += integrals[segmentCount-1];
-            }
         }
         if(d < l && l <= segmentCount)
         {
@@ -1166,9 +1158,8 @@ void resamplePolygon(
 
     if(isOpenPolygon)
     {
-        integrals[segmentCount] += poly[size-1] - integrals[segmentCount-1];
-        integrals[1] -= integrals[0] / 6.0;
-        integrals[segmentCount-1] -= integrals[segmentCount] / 6.0;
+        integrals[1] -= poly[0] / 6.0;
+        integrals[segmentCount-1] -= poly[size-1] / 6.0;
 
         ArrayVector<double> g(segmentCount);
         double b = 2.0 / 3.0;
-- 
2.43.0


From ae0fa17b0c5f2bab49d41f1071d5c6241d9af985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:06 +0000
Subject: [PATCH 63/65] fix: group parallel darts straddling the -pi/pi
 direction with a single dart on one side

sortEdgesInternal() searched the start of the cyclic group only down to
the second dart, so that a group whose part on the other side of the
branch cut consisted of the first dart alone was never rotated together.
---
 src/geomap/cppmap.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index a5d7ad9..a25ae6f 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -545,8 +545,9 @@ void sortEdgesInternal(const Vector2 &currentPos,
     {
         // first and last dart are less than minAngle apart,..
         DPAI prev(firstGroupStart);
-        while(--firstGroupStart > dpBegin)
+        while(firstGroupStart != dpBegin)
         {
+            --firstGroupStart;
             // ..determine last decision point..
             if(prev->angle - firstGroupStart->angle >= minAngle)
             {
-- 
2.43.0


From 291565161d4344a1bf9bc4dca9d200888e619ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:06 +0000
Subject: [PATCH 64/65] fix: addFlowLinesToMap attaches flow line ends to
 nearby nodes

Node positions and polygon points are exported as tuples, which have
neither a difference operator nor squaredMagnitude().
---
 python/maputils/maputils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 75182ee..9509611 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -559,10 +559,10 @@ def addFlowLinesToMap(edges, map, imageSize = None,
             # if there is already a node nearby and in the right
             # direction (prevents loops), attach edge to it:
             if nearestNode:
-                diff = nearestNode.position() - pos
+                diff = numpy.subtract(nearestNode.position(), pos)
                 startNode = nearestNode
-                if numpy.dot(diff, pos - points[1]) >= 0: # don't jump back
-                    if diff.squaredMagnitude():
+                if numpy.dot(diff, numpy.subtract(pos, points[1])) >= 0: # don't jump back
+                    if diff.any():
                         # include node position if not present
                         points.insert(0, nearestNode.position())
                 else:
@@ -578,10 +578,10 @@ def addFlowLinesToMap(edges, map, imageSize = None,
             pos = points[-1]
             nearestNode = map.nearestNode(pos, 0.25)
             if nearestNode:
-                diff = nearestNode.position() - pos
+                diff = numpy.subtract(nearestNode.position(), pos)
                 endNode = nearestNode
-                if numpy.dot(diff, pos - points[-2]) >= 0:
-                    if diff.squaredMagnitude():
+                if numpy.dot(diff, numpy.subtract(pos, points[-2])) >= 0:
+                    if diff.any():
                         points.append(nearestNode.position())
                 else:
                     points[-1] = nearestNode.position()
-- 
2.43.0


From 17c6ebf4d681a0a8432fcd85bbfc9e0b48ee681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:14 +0000
Subject: [PATCH 65/65] fix: nextLabel() of the automatic methods called a
 nonexistent method

(and the queue of SeededRegionGrowing contains face labels)
---
 python/maputils/maputils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 9509611..9ff7e47 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1463,7 +1463,7 @@ class AutomaticMethodBase(object):
         edge at the front of the internal priority queue might have
         been removed already); see `ensureValidNext()`."""
 
-        self._ensureValidNext()
+        self.ensureValidNext()
         return self._queue.top()[0]
 
     def step(self):
@@ -2090,6 +2090,15 @@ class SeededRegionGrowing(AutomaticMethodBase):
                 self._queue.setCost(neighbor.label(), cost)
                 neighbor.setFlag(flag_constants.SRG_BORDER)
 
+    def ensureValidNext(self):
+        # the queue contains face labels (cf. mergeStep())
+        q = self._queue
+        while q:
+            face = self._map.face(q.top()[0])
+            if face and not face.flag(flag_constants.SRG_SEED):
+                break
+            q.pop()
+
     def mergeStep(self):
         # fetch candidate Face from queue:
         while self._queue:
-- 
2.43.0

