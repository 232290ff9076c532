From 56238aa99dd3374f6e08b1dad6317d16f0b74f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:04 +0000
Subject: [PATCH 01/39] fix: mergeEdges must not move contour anchors when a
 callback vetoes it

---
 src/geomap/cppmap.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index d0b3230..9dabaf7 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1791,6 +1791,11 @@ GeoMap::EdgePtr GeoMap::mergeEdges(const GeoMap::Dart &dart)
     GeoMap::Node &mergedNode(*d2.startNode());
     GeoMap::Edge &mergedEdge(*d2.edge());
 
+    if(!preMergeEdgesHook(d1))
+        return NULL_PTR(GeoMap::Edge);
+    if(!removeNodeHook(mergedNode))
+        return NULL_PTR(GeoMap::Edge);
+
     if(mapInitialized())
     {
         GeoMap::Face *faces[2];
@@ -1811,11 +1816,6 @@ GeoMap::EdgePtr GeoMap::mergeEdges(const GeoMap::Dart &dart)
         }
     }
 
-    if(!preMergeEdgesHook(d1))
-        return NULL_PTR(GeoMap::Edge);
-    if(!removeNodeHook(mergedNode))
-        return NULL_PTR(GeoMap::Edge);
-
     if(labelImage_)
     {
         rawAddEdgeToLabelImage(mergedEdge.scanLines(), *labelImage_, 1);
-- 
2.43.0


From ef30626c5400d82c4b5a5bbe7561323fadbe6ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:25 +0000
Subject: [PATCH 02/39] fix: sortEdgesDirectly must not leave half-sorted
 orbits when it refuses

---
 src/geomap/cppmap.cxx | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 9dabaf7..63f8c66 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -431,13 +431,18 @@ void GeoMap::sortEdgesDirectly()
         "sigma orbits cannot be changed after initializeMap()");
 
     typedef std::pair<double, int> DartAngle; // dart (angle, label) pairs
+    typedef std::vector<DartAngle> DartAngles;
+
+    // determine all new orbits first, so that nothing is changed if
+    // the edges around some node cannot be sorted
+    std::vector<DartAngles> orbits;
 
     for(NodeIterator it = nodesBegin(); it.inRange(); ++it)
     {
         if((*it)->isIsolated())
             continue;
 
-        std::vector<DartAngle> dartAngles;
+        DartAngles dartAngles;
 
         GeoMap::Dart anchor((*it)->anchor()), d(anchor);
         do
@@ -453,7 +458,6 @@ void GeoMap::sortEdgesDirectly()
 
         std::sort(dartAngles.begin(), dartAngles.end());
 
-        int predecessor = dartAngles[0].second;
         for(unsigned int i = 1; i < dartAngles.size(); ++i)
         {
             if(dartAngles[i-1].first == dartAngles[i].first)
@@ -466,6 +470,16 @@ void GeoMap::sortEdgesDirectly()
                 s << "  edge " << edge2->label() << " (" << description(*edge2) << ")";
                 vigra_precondition(false, s.str());
             }
+        }
+        orbits.push_back(dartAngles);
+    }
+
+    for(unsigned int o = 0; o < orbits.size(); ++o)
+    {
+        const DartAngles &dartAngles(orbits[o]);
+        int predecessor = dartAngles[0].second;
+        for(unsigned int i = 1; i < dartAngles.size(); ++i)
+        {
             sigmaMapping_[predecessor] = dartAngles[i].second;
             sigmaInverseMapping_[dartAngles[i].second] = predecessor;
             predecessor = dartAngles[i].second;
-- 
2.43.0


From 2aa8b2fd4213468c57392813fae12e9c5889702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:25 +0000
Subject: [PATCH 03/39] fix: changeFaceLabels must validate all labels before
 changing any face

---
 src/geomap/cppmap.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 63f8c66..1b873ae 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1247,9 +1247,10 @@ void GeoMap::changeFaceLabels(
             !newFaces[newFaceLabels[l]],
             "changeFaceLabels: trying to map multiple faces to the same label");
         newFaces[newFaceLabels[l]] = faces_[l];
-        faces_[l]->label_ = newFaceLabels[l];
     }
     std::swap(faces_, newFaces);
+    for(FaceIterator it = facesBegin(); it.inRange(); ++it)
+        (*it)->label_ = newFaceLabels[(*it)->label_];
 
     for(EdgeIterator it = edgesBegin(); it.inRange(); ++it)
     {
-- 
2.43.0


From 97f850ba72d20fa95d8857e7a15432635bf3d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:25 +0000
Subject: [PATCH 04/39] fix: initializeMap must refuse a missing image size
 before creating faces

---
 src/geomap/cppmap.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 1b873ae..af07df4 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -980,6 +980,10 @@ void GeoMap::initializeMap(bool initLabelImage)
 {
     vigra_precondition(!mapInitialized(),
                        "initializeMap() called more than once");
+    vigra_precondition(!labelImage_,
+        "initializeMap() called with already-initialized labelImage");
+    vigra_precondition(!initLabelImage || imageSize_.area() > 0,
+                       "initLabelImage: imageSize must be non-zero!");
     if(!edgesSorted())
         sortEdgesDirectly();
 
-- 
2.43.0


From 5e7cd7269f508f7bd2939dc5ae83f33490800281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:25 +0000
Subject: [PATCH 05/39] fix: setHasLabelImage must be refused while there are
 no faces to draw

---
 src/geomap/cppmap.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index af07df4..a185ded 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1004,6 +1004,8 @@ void GeoMap::setHasLabelImage(bool onoff)
 
     if(onoff)
     {
+        vigra_precondition(mapInitialized(),
+            "setHasLabelImage() called on graph (no faces available)");
         vigra_precondition(imageSize_.area() > 0,
                            "initLabelImage: imageSize must be non-zero!");
         labelImage_ = new LabelImage(
-- 
2.43.0


From 437f43e5df60f6484bd3c47b8215da264d50dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:25 +0000
Subject: [PATCH 06/39] fix: splitEdge must refuse removed edges before adding
 a node

---
 src/geomap/cppmap.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index a185ded..31f6b3b 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1901,6 +1901,8 @@ GeoMap::EdgePtr GeoMap::splitEdge(
     GeoMap::Edge &edge, unsigned int segmentIndex,
     const Vector2 &newPoint, bool insertPoint)
 {
+    vigra_precondition(edge.initialized(),
+                       "splitEdge: cannot split removed edge!");
     vigra_precondition(segmentIndex < edge.size() - 1,
                        "splitEdge: invalid segmentIndex");
 
-- 
2.43.0


From 5589c438548a59d609d6de3bb4a8520b8b6c7222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:45 +0000
Subject: [PATCH 07/39] fix: addEdge must refuse removed nodes

---
 src/geomap/cppmap.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 31f6b3b..1a35637 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -375,6 +375,9 @@ GeoMap::EdgePtr GeoMap::addEdge(
 {
     vigra_precondition(!mapInitialized(),
         "addEdge() called after initializeMap() (updating faces not implemented yet)");
+    vigra_precondition(
+        node(startNeighbor.nodeLabel()) && node(endNeighbor.nodeLabel()),
+        "addEdge() called with removed node!");
 
     if(label > edges_.size())
         edges_.resize(label, NULL_PTR(GeoMap::Edge));
-- 
2.43.0


From cc0fbeced93dd4cf4462e486d61259b27c072988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:12 +0000
Subject: [PATCH 08/39] fix: removeEdge must refuse darts of removed edges

---
 src/geomap/cppmap.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 1a35637..f13549a 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -409,6 +409,9 @@ GeoMap::EdgePtr GeoMap::addEdge(
 
 GeoMap::FacePtr GeoMap::removeEdge(const GeoMap::Dart &dart)
 {
+    vigra_precondition(static_cast<bool>(dart.edge()),
+                       "removeEdge called on removed dart!");
+
     if(mapInitialized())
     {
         if(dart.edge()->isBridge())
-- 
2.43.0


From bba19cfccdf2ffd63b720e3ba677308761cdca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:53 +0000
Subject: [PATCH 09/39] fix: removing or moving a node must drop its own entry
 from the node index

The entry was looked up by position only, so with two nodes at the same
position the index entry of the other node was erased.
---
 src/geomap/cppmap.cxx      |  4 +---
 src/geomap/cppmap.hxx      | 20 +++++++++++++++++---
 src/geomap/vigra/map2d.hxx |  6 ++++++
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index f13549a..20b94b6 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2195,9 +2195,7 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
 void GeoMap::Node::setPosition(const Vector2 &p)
 {
     vigra_precondition(initialized(), "setPosition() of uninitialized node!");
-    map_->nodeMap_.erase(
-        map_->nodeMap_.nearest(PositionedNodeLabel(position_, label_),
-                               vigra::NumericTraits<double>::epsilon()));
+    map_->unindexNode(position_, label_);
     position_ = p;
 
     if(!isIsolated())
diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 337c426..f9bff6c 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -363,6 +363,7 @@ class GeoMap
     void resizeSigmaMapping(SigmaMapping::size_type newSize);
     void insertSigmaPredecessor(int successor, int newPredecessor);
     void detachDart(int dartLabel);
+    inline void unindexNode(const Vector2 &position, CellLabel label);
 
   public:
     NodePtr nearestNode(
@@ -1311,14 +1312,27 @@ inline GeoMap::Dart GeoMap::dart(int label)
     return GeoMap::Dart(this, label);
 }
 
+inline void GeoMap::unindexNode(const Vector2 &position, CellLabel label)
+{
+    // several nodes may share one position, so look for this very node
+    std::pair<NodeMap::iterator, NodeMap::iterator>
+        range(nodeMap_.equal_range(position[0]));
+    for(NodeMap::iterator it = range.first; it != range.second; ++it)
+    {
+        if(it->second.payload == label)
+        {
+            nodeMap_.erase(it);
+            return;
+        }
+    }
+}
+
 inline void GeoMap::Node::uninitialize()
 {
     GeoMap *map = map_;
     map_ = NULL; // DON'T MESS WITH THIS!
     --map->nodeCount_;
-    map->nodeMap_.erase(
-        map->nodeMap_.nearest(PositionedNodeLabel(position_, label_),
-                              vigra::NumericTraits<double>::epsilon()));
+    map->unindexNode(position_, label_);
     RESET_PTR(map->nodes_[label_]); // may have effect like "delete this;"!
 }
 
diff --git a/src/geomap/vigra/map2d.hxx b/src/geomap/vigra/map2d.hxx
index 5e5397e..d52cd7f 100644
--- a/src/geomap/vigra/map2d.hxx
+++ b/src/geomap/vigra/map2d.hxx
@@ -81,6 +81,12 @@ public:
         vectors_.erase(it);
     }
 
+        // all elements with the given x coordinate
+    std::pair<iterator, iterator> equal_range(CoordType x)
+    {
+        return vectors_.equal_range(x);
+    }
+
         // assumes that Vector2D(x, y) is a valid constructor:
     void insert(CoordType x, CoordType y)
     {
-- 
2.43.0


From bb946fca599779eaf57cbed82905deb7f9e72885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:48 +0000
Subject: [PATCH 10/39] fix: observers must disconnect from the map when they
 are destroyed

EdgeProtection and FaceColorStatistics bind 'this' into the hooks of the map
but left the connections in place on destruction, so the next operation on
the map called into a dead object.
---
 src/geomap/cppmap_utils.hxx   | 5 +++++
 src/geomap/facestatistics.hxx | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/geomap/cppmap_utils.hxx b/src/geomap/cppmap_utils.hxx
index d856d9e..856adb9 100644
--- a/src/geomap/cppmap_utils.hxx
+++ b/src/geomap/cppmap_utils.hxx
@@ -49,6 +49,11 @@ class EdgeProtection : boost::noncopyable
             attachHooks(map);
     }
 
+    ~EdgeProtection()
+    {
+        detachHooks();
+    }
+
     const boost::shared_ptr<GeoMap> map() const
     {
         return map_;
diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 5613333..7115e21 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -591,6 +591,7 @@ void FaceColorStatistics<OriginalImage>::ensureMinSampleCount(
 template<class OriginalImage>
 FaceColorStatistics<OriginalImage>::~FaceColorStatistics()
 {
+    detachHooks();
     for(unsigned int i = 0; i < functors_.size(); ++i)
         delete functors_[i];
 }
-- 
2.43.0


From 1252c723a8cfa8881b256da7a5b8456bde3a1d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:48 +0000
Subject: [PATCH 11/39] fix: copied FaceColorStatistics must own its functors

The copy constructor copied the pointers, so original and copy shared (and
both deleted) the same functors.
---
 src/geomap/facestatistics.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 7115e21..178c853 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -538,6 +538,10 @@ FaceColorStatistics<OriginalImage>::FaceColorStatistics(
   superSampledCount_(other.superSampledCount_),
   maxDiffNorm_(other.maxDiffNorm_)
 {
+    // the functors are owned, i.e. must not be shared with other
+    for(unsigned int i = 0; i < functors_.size(); ++i)
+        if(functors_[i])
+            functors_[i] = new Functor(*functors_[i]);
 }
 
 template<class OriginalImage>
-- 
2.43.0


From d1d92a4107b8e996a5a3e5e9e59106f41b16c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:48 +0000
Subject: [PATCH 12/39] fix: do not use the supersampling array after releasing
 it in postMergeFaces

---
 src/geomap/facestatistics.hxx | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 178c853..5330376 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -230,17 +230,14 @@ class FaceColorStatistics
         if(superSampled_.get())
         {
             if((*superSampled_)[face.label()] && !mergedSS_)
-            {
-                if(!--superSampledCount_)
-                    superSampled_.reset();
-            }
+                --superSampledCount_;
             (*superSampled_)[face.label()] = mergedSS_;
 
             if((*superSampled_)[mergedLabel])
-            {
-                if(!--superSampledCount_)
-                    superSampled_.reset();
-            }
+                --superSampledCount_;
+
+            if(!superSampledCount_)
+                superSampled_.reset();
         }
 
         delete functors_[mergedLabel];
-- 
2.43.0


From 63bd30c74db403e3854e3b3abe9d81a3b37733e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:16 +0000
Subject: [PATCH 13/39] fix: destroying a GeoMap must release its label image

---
 src/geomap/cppmap.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 20b94b6..274e5a2 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -304,6 +304,7 @@ GeoMap::~GeoMap()
         (*it)->uninitialize();
     for(FaceIterator it = facesBegin(); it.inRange(); ++it)
         (*it)->uninitialize();
+    delete labelImage_;
 }
 
 GeoMap::FacePtr GeoMap::faceAt(const Vector2 &position)
-- 
2.43.0


From c7a86fc10badba63717569ea5dafcb275164b119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:53 +0000
Subject: [PATCH 14/39] fix: keep outer contour first when the survivor of
 mergeFaces was enclosed by the merged face

---
 src/geomap/cppmap.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 274e5a2..0237b9c 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2132,7 +2132,9 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
     if(mergedFace.anchors_.size() > 1)
     {
 #ifndef ANCHOR_LISTS // toggle according to anchors_ being std::vector/std::list
-        survivor.anchors_.insert(survivor.anchors_.end(),
+        // (non-empty only if survivor lies in a hole of mergedFace,
+        // whose outer contour then becomes the survivor's)
+        survivor.anchors_.insert(survivor.anchors_.begin(),
                                  mergedFace.anchors_.begin(), contour2);
         survivor.anchors_.insert(survivor.anchors_.end(),
                                  ++contour2, mergedFace.anchors_.end());
-- 
2.43.0


From 026965c2ffac7b09f66c757622595d9520ce4765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:53 +0000
Subject: [PATCH 15/39] fix: setHasLabelImage() lost faces lying in holes and
 counted face 0's pixels twice

---
 src/geomap/cppmap.cxx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 0237b9c..d512560 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1019,15 +1019,25 @@ void GeoMap::setHasLabelImage(bool onoff)
             LabelImage::size_type(imageSize().width(), imageSize().height()), 0);
         faceLabelLUT_.initIdentity(faces_.size());
 
+        // enclosing faces have to be filled before those in their holes:
+        std::vector<std::pair<double, CellLabel> > fillOrder;
         for(FaceIterator it = finiteFacesBegin(); it.inRange(); ++it)
+            fillOrder.push_back(std::make_pair(
+                -contourArea((*it)->contour()), (*it)->label()));
+        std::sort(fillOrder.begin(), fillOrder.end());
+
+        for(unsigned int i = 0; i < fillOrder.size(); ++i)
         {
+            CellLabel label = fillOrder[i].second;
             std::auto_ptr<vigra::Scanlines> scanlines =
-                (*it)->scanLines();
-            fillScannedPoly(*scanlines, (int)(*it)->label(),
+                face(label)->scanLines();
+            fillScannedPoly(*scanlines, (int)label,
                             destMultiArrayRange(*labelImage_));
-            (*it)->pixelArea_ = 0;
         }
 
+        for(FaceIterator it = facesBegin(); it.inRange(); ++it)
+            (*it)->pixelArea_ = 0;
+
         for(EdgeIterator it = edgesBegin(); it.inRange(); ++it)
             markEdgeInLabelImage((*it)->scanLines(),
                                  *labelImage_);
-- 
2.43.0


From 52319a1fe35f4e1d736b5f5dbaae4f0ba5d9b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 16/39] fix: Polygon::push_back() and extend() doubled the area
 of the new segment

The cached partialArea() is half the sum of the cross products, but the
incremental updates added the full cross product.
---
 src/geomap/polygon.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 22cc271..e3a68c3 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -352,7 +352,7 @@ class Polygon : public PointArray<POINT>
                 length_ += (v - this->points_.back()).magnitude();
             if(partialAreaValid_)
                 partialArea_ += (v[0]*this->points_.back()[1] -
-                                      v[1]*this->points_.back()[0]);
+                                      v[1]*this->points_.back()[0]) / 2.0;
         }
         Base::push_back(v);
     }
@@ -380,7 +380,7 @@ class Polygon : public PointArray<POINT>
                 if(partialAreaValid_)
                     partialArea_ +=
                         (other.points_.front()[0]*this->points_.back()[1] -
-                         other.points_.front()[1]*this->points_.back()[0]);
+                         other.points_.front()[1]*this->points_.back()[0]) / 2.0;
             }
         }
         if(lengthValid_)
-- 
2.43.0


From 1f1b31bd10239d48ba95c056b4a74ebbff984ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 17/39] fix: BBoxPolygon::setPoint() did not extend the cached
 bounding box

---
 src/geomap/polygon.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index e3a68c3..34e25fc 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -652,6 +652,8 @@ class BBoxPolygon : public Polygon<POINT>
                ((x[1] > this->points_[pos][1]) &&
                 (this->points_[pos][1] == boundingBox_.begin()[1])))
                 boundingBoxValid_ = false;
+            else
+                boundingBox_ |= x;
         }
         Base::setPoint(pos, x);
     }
-- 
2.43.0


From b4358a9b6f91a8eb6e85fed4c61608004413c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 18/39] fix: invalidateProperties() and clear() left cached
 polygon properties valid

---
 src/geomap/polygon.hxx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 34e25fc..3e5df63 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -344,6 +344,12 @@ class Polygon : public PointArray<POINT>
         return (result % 2) != 0;
     }
 
+    void clear()
+    {
+        Base::clear();
+        invalidateProperties();
+    }
+
     void push_back(const_reference v)
     {
         if(this->size())
@@ -606,6 +612,12 @@ class BBoxPolygon : public Polygon<POINT>
       boundingBoxValid_(false)
     {}
 
+    void invalidateProperties()
+    {
+        Base::invalidateProperties();
+        boundingBoxValid_ = false;
+    }
+
     bool contains(const_reference point) const
     {
         if(!boundingBox().contains(point))
@@ -625,6 +637,12 @@ class BBoxPolygon : public Polygon<POINT>
         return boundingBox_;
     }
 
+    void clear()
+    {
+        Base::clear();
+        boundingBoxValid_ = false;
+    }
+
     void push_back(const_reference v)
     {
         if(boundingBoxValid_)
-- 
2.43.0


From 4594841328ba673b7513e3ad325efe6fd4fd47cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 19/39] fix: Edge::concatenate() dereferenced missing scan
 lines of the other edge

---
 src/geomap/cppmap.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index d512560..fee32ad 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -200,9 +200,10 @@ void GeoMap::Edge::concatenate(Edge &other, bool atEnd, bool reverse)
 
     if(scanLines_.get())
     {
-        if(reverse) // FIXME: call other.scanLines() (might be NULL)
-            other.scanLines_->reverse();
-        (*scanLines_) += other.scanLines();
+        vigra::Scanlines otherScanlines(other.scanLines());
+        if(reverse)
+            otherScanlines.reverse();
+        (*scanLines_) += otherScanlines;
     }
 }
 
-- 
2.43.0


From 6c9308d929ac5139da35f8d3eabdaeecfd57517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 20/39] fix: splitEdge() left stale scan lines when there is no
 label image

---
 src/geomap/cppmap.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index fee32ad..15fcc17 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1978,9 +1978,9 @@ GeoMap::EdgePtr GeoMap::splitEdge(
             changedNode.anchor_ = -(int)result->label();
     }
 
+    edge.scanLines_.reset();
     if(labelImage_)
     {
-        edge.scanLines_.reset();
         rawAddEdgeToLabelImage(edge.scanLines(), *labelImage_, -1);
         rawAddEdgeToLabelImage(result->scanLines(), *labelImage_, -1);
     }
-- 
2.43.0


From 96f0c469cba08a3e58fb3a9a76552838a7f39cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 21/39] fix: moving the end points of edges left their cached
 properties stale

---
 src/geomap/cppmap.cxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 15fcc17..69069bd 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -887,13 +887,13 @@ void GeoMap::splitParallelEdges()
                 if(relocateDart.label() < 0)
                 {
                     relocateEdge->endNodeLabel_ = survivingNode.label();
-                    (*relocateEdge)[relocateEdge->size() - 1] =
-                        survivingNode.position();
+                    relocateEdge->setPoint(relocateEdge->size() - 1,
+                                           survivingNode.position());
                 }
                 else
                 {
                     relocateEdge->startNodeLabel_ = survivingNode.label();
-                    (*relocateEdge)[0] = survivingNode.position();
+                    relocateEdge->setPoint(0, survivingNode.position());
                 }
 
                 detachDart(relocateDart.label());
@@ -934,13 +934,13 @@ void GeoMap::splitParallelEdges()
             if(relocateDart.label() < 0)
             {
                 relocateEdge->endNodeLabel_ = survivingNode.label();
-                (*relocateEdge)[relocateEdge->size() - 1] =
-                    survivingNode.position();
+                relocateEdge->setPoint(relocateEdge->size() - 1,
+                                       survivingNode.position());
             }
             else
             {
                 relocateEdge->startNodeLabel_ = survivingNode.label();
-                (*relocateEdge)[0] = survivingNode.position();
+                relocateEdge->setPoint(0, survivingNode.position());
             }
             detachDart(relocateDart.label());
             insertSigmaPredecessor(sigmaNeighborLabel, relocateDart.label());
@@ -2219,12 +2219,12 @@ void GeoMap::Node::setPosition(const Vector2 &p)
         {
             if(d.label() > 0)
             {
-                (*map_->edge(d.label()))[ 0] = p;
+                map_->edge(d.label())->setPoint(0, p);
             }
             else
             {
                 GeoMap::Edge &edge(*map_->edge(-d.label()));
-                edge[edge.size()-1] = p;
+                edge.setPoint(edge.size()-1, p);
             }
         }
         while(d.nextSigma().label() != anchor_);
-- 
2.43.0


From 9ef077fde8fb27f22da3be24537ab0d645d82387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 22/39] fix: Polygon.swap(Polygon) from Python left the other
 polygon's properties stale

Boost.Python tries the overload registered last first, so the
Vector2Array overload hid the Polygon one.
---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index bbb0bca..5cd77bb 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1876,8 +1876,8 @@ void defPolygon()
         .def("partialArea", &PythonPolygon::partialArea)
         .def("boundingBox", &PythonPolygon::boundingBox)
         .def("contains", &PythonPolygon::contains)
-        .def("swap", (void (PythonPolygon::*)(PythonPolygon &))&PythonPolygon::swap)
         .def("swap", (void (PythonPolygon::*)(Vector2Array &))&PythonPolygon::swap)
+        .def("swap", (void (PythonPolygon::*)(PythonPolygon &))&PythonPolygon::swap)
         .def("reverse", &PythonPolygon::reverse)
         .def("nearestPoint", &PythonPolygon::nearestPoint)
         .def("invalidateProperties", &PythonPolygon::invalidateProperties)
-- 
2.43.0


From 9b329714ff7b95afa30fa07d4123f3556373c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:36 +0000
Subject: [PATCH 23/39] fix: FaceColorStatistics must drop the supersampling
 array with the last supersampled face

associatePixels() decremented superSampledCount_ to zero without releasing
superSampled_ (as postMergeFaces() does), leaving an object for which
checkConsistency() fails.
---
 src/geomap/facestatistics.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 5330376..22e281c 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -261,6 +261,8 @@ class FaceColorStatistics
         {
             (*superSampled_)[face.label()] = 0;
             --superSampledCount_;
+            if(!superSampledCount_)
+                superSampled_.reset();
 
             functors_[face.label()]->reset();
 
-- 
2.43.0


From 073bafa70878c25c5120abf8004a7dc183007d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:06 +0000
Subject: [PATCH 24/39] fix: do not keep failed operations in the pyramid's
 history

---
 src/cellimage/cellpyramid.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index 57db2a0..ab563ef 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -315,19 +315,19 @@ class CellPyramid
         CellInfo *result = NULL;
         if(!composing_)
         {
+            history_.push_back(Operation(t, p));
             try
             {
-                history_.push_back(Operation(t, p));
                 result = &topLevel_.performOperation(history_.back());
-                ++topLevel_.index_;
-                if(topLevel_.subIndex_ >= nextCheckpointLevelIndex_)
-                    storeCheckpoint(topLevel_);
             }
             catch(...)
             {
-                cutAbove(topLevel_.index());
+                history_.pop_back();
                 throw;
             }
+            ++topLevel_.index_;
+            if(topLevel_.subIndex_ >= nextCheckpointLevelIndex_)
+                storeCheckpoint(topLevel_);
         }
         else
         {
-- 
2.43.0


From adb37642a9ac74c25eaf1d7be9873448a0d92cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:06 +0000
Subject: [PATCH 25/39] fix: changeIntoComposite() must re-open the last level
 of the pyramid

---
 src/cellimage/cellpyramid.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index ab563ef..ce516ff 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -438,6 +438,9 @@ class CellPyramid
             Operation tmp(last);         // copy old
             last = Operation();          // create composite
             last.opList->push_back(tmp); // and re-fill with old
+            // the last level is not complete anymore (until endComposite())
+            checkpoints_.erase(topLevel_.index_);
+            --topLevel_.index_;
         }
         ++composing_;
     }
-- 
2.43.0


From 8c8abdc09f375ecde4ffd137484fca4d866f7538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:55 +0000
Subject: [PATCH 26/39] fix: release the old operation list when assigning
 pyramid operations

---
 src/cellimage/cellpyramid.hxx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index ce516ff..250e89e 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -85,9 +85,10 @@ class CellPyramid
 
         Operation &operator =(const Operation &other)
         {
-            if(type == Composite)
-                ;//delete opList; // FIXME: memory leak! (but crashes)
+            // (other may be part of the old list)
+            History *oldList = (type == Composite ? opList : NULL);
             assign(other);
+            delete oldList;
             return *this;
         }
 
@@ -452,9 +453,7 @@ class CellPyramid
             Operation &last(history_.back());
             if(last.opList->size() == 1)
             {
-                History *h = last.opList;
-                last = (*h)[0];
-                delete h;
+                last = (*last.opList)[0];
             }
             ++topLevel_.index_;
             if(topLevel_.subIndex_ >= nextCheckpointLevelIndex_)
-- 
2.43.0


From 6b78b6934c362fe3e47064b0cc2e3f3822dec293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:56 +0000
Subject: [PATCH 27/39] fix: Polygon.__delitem__ accepts only existing
 positions

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 5cd77bb..81e52bb 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -188,7 +188,7 @@ void insert(Polygon & p, int pos, typename Polygon::const_reference x)
 template<class Polygon>
 void erase(Polygon & p, int pos)
 {
-    checkPythonIndex(pos, p.size() + 1);
+    checkPythonIndex(pos, p.size());
     p.erase(p.begin() + pos);
 }
 
-- 
2.43.0


From a34cd572bf31bb95438171c161dec72306cc27e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:56 +0000
Subject: [PATCH 28/39] fix: PointArray::interpolate refuses segments that do
 not exist

---
 src/geomap/polygon.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 3e5df63..e2e5e6e 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -86,6 +86,8 @@ class PointArray
 
     Point interpolate(unsigned int index, double offset) const
     {
+        vigra_precondition(points_.size() > 1 && index < points_.size() - 1,
+                           "PointArray::interpolate(): invalid segment index!");
         return (1.0 - offset) * points_[index] + offset * points_[index+1];
     }
 
-- 
2.43.0


From d53331fb9fccaa645fdc0113ee18eac9e143880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:56 +0000
Subject: [PATCH 29/39] fix: check the labels passed to LabelLUT.relabel and
 LabelLUT.merged

---
 src/python_bindings/cppmapmodule_utils.cxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/cppmapmodule_utils.cxx b/src/python_bindings/cppmapmodule_utils.cxx
index efe4021..386fba8 100644
--- a/src/python_bindings/cppmapmodule_utils.cxx
+++ b/src/python_bindings/cppmapmodule_utils.cxx
@@ -150,6 +150,19 @@ pyDrawLabelImage(const GeoMap &map, bool negativeEdgeLabels)
 
 /********************************************************************/
 
+void LabelLUT_relabel(LabelLUT &lut, int from, int to)
+{
+    checkPythonIndex(from, lut.size());
+    checkPythonIndex(to, lut.size());
+    lut.relabel(from, to);
+}
+
+LabelLUT::MergedIterator LabelLUT_merged(LabelLUT const &lut, int label)
+{
+    checkPythonIndex(label, lut.size());
+    return lut.mergedBegin(label);
+}
+
 void defMapUtils()
 {
     using namespace boost::python;
@@ -161,8 +174,8 @@ void defMapUtils()
             .def("appendOne", &LabelLUT::appendOne)
             .def("__getitem__", &Array__getitem__<LabelLUT>)
             .def("__len__", &LabelLUT::size)
-            .def("relabel", &LabelLUT::relabel) // FIXME: check index
-            .def("merged", &LabelLUT::mergedBegin)
+            .def("relabel", &LabelLUT_relabel)
+            .def("merged", &LabelLUT_merged)
             .def("__copy__", &generic__copy__<LabelLUT>)
             .def("__deepcopy__", &generic__deepcopy__<LabelLUT>)
             );
-- 
2.43.0


From 56e56d31cb13d8138a832b5c591d46a31c974cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:56 +0000
Subject: [PATCH 30/39] fix: GeoMap::dart refuses labels of edges that never
 existed

---
 src/geomap/cppmap.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index f9bff6c..fbd2b68 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1309,6 +1309,8 @@ class GeoMap::Face : boost::noncopyable
 
 inline GeoMap::Dart GeoMap::dart(int label)
 {
+    vigra_precondition((CellLabel)std::abs(label) < edges_.size(),
+                       "invalid dart label!");
     return GeoMap::Dart(this, label);
 }
 
-- 
2.43.0


From d7cf4780665724d4f447ee4ef940530ee52a94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:56 +0000
Subject: [PATCH 31/39] fix: tangentDSL accepts negative indices of closed
 chains and refuses empty ones

---
 src/geomap/vigra/dsl.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geomap/vigra/dsl.hxx b/src/geomap/vigra/dsl.hxx
index 8588e7e..2b8998a 100644
--- a/src/geomap/vigra/dsl.hxx
+++ b/src/geomap/vigra/dsl.hxx
@@ -208,12 +208,18 @@ int tangentDSL(FreemanCodeIter freemanCodesBegin,
                bool closed,
                DigitalStraightLine<Integer, true> &dsl)
 {
+    vigra_precondition(freemanCodesBegin != freemanCodesEnd,
+        "tangentDSL: empty freeman chain!");
     vigra_precondition(closed ||
         (pointIndex > 0 && pointIndex < freemanCodesEnd - freemanCodesBegin),
         "tangentDSL: cannot find tangent at end of open poly!");
 
     if(closed)
+    {
         pointIndex %= freemanCodesEnd - freemanCodesBegin;
+        if(pointIndex < 0)
+            pointIndex += freemanCodesEnd - freemanCodesBegin;
+    }
 
     // FreemanCodes should be integers;
     // freemanCode & 1 must be a valid expression
-- 
2.43.0


From 73793158ee65769c6f6120dec3bf0ca070eac992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:56 +0000
Subject: [PATCH 32/39] fix: curvatureList refuses dx < 1 like tangentList does

---
 src/python_bindings/polygon.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 81e52bb..3367c9a 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -346,6 +346,13 @@ list curvatureList(const Array &p, int dx = 5, unsigned int skip = 0)
         throw_error_already_set();
     }
 
+    if(dx < 1)
+    {
+        PyErr_SetString(PyExc_ValueError,
+            "curvatureList: dx too small (must be >= 1)");
+        throw_error_already_set();
+    }
+
     double pos = 0.0;
     for(unsigned int i = 0; i < dx + skip - 1; ++i)
         pos += (p[i+1]-p[i]).magnitude();
-- 
2.43.0


From 15d93313bb05e542734957132fd90fd10a5d3efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:56 +0000
Subject: [PATCH 33/39] fix: SubPixelWatersheds.edge checks the saddle index

---
 src/python_bindings/subpixel_watersheds.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python_bindings/subpixel_watersheds.cxx b/src/python_bindings/subpixel_watersheds.cxx
index a4b6cdb..356b944 100644
--- a/src/python_bindings/subpixel_watersheds.cxx
+++ b/src/python_bindings/subpixel_watersheds.cxx
@@ -29,6 +29,7 @@
 #include "vigra/subpixel_watershed.hxx"
 
 #include "python_types.hxx"
+#include "exporthelpers.hxx"
 #include <boost/python.hpp>
 namespace python = boost::python;
 
@@ -95,6 +96,7 @@ class SPWSWrapper : public SPWSType
     python::object
     edge(int index)
     {
+        checkPythonIndex(index, this->saddles_.size());
         double x = this->saddles_[index][0];
         double y = this->saddles_[index][1];
 
-- 
2.43.0


From c06296a1dd25c9002b5d7ddd25d94b42e4bcebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:56 +0000
Subject: [PATCH 34/39] fix: cell image cell lists refuse negative indices and
 the one past the end

---
 src/cellimage/cellimage_module.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cellimage/cellimage_module.hxx b/src/cellimage/cellimage_module.hxx
index 525f0b8..da33134 100644
--- a/src/cellimage/cellimage_module.hxx
+++ b/src/cellimage/cellimage_module.hxx
@@ -69,7 +69,7 @@ struct NodeListProxy
 
     vigra::cellimage::GeoMap::NodeInfo &__getitem__(long index)
     {
-        if(index > (long)segmentation_->maxNodeLabel())
+        if(index < 0 || index >= (long)segmentation_->maxNodeLabel())
         {
             PyErr_SetObject(
                 PyExc_IndexError,
@@ -105,7 +105,7 @@ struct EdgeListProxy
 
     vigra::cellimage::GeoMap::EdgeInfo &__getitem__(long index)
     {
-        if(index > (long)segmentation_->maxEdgeLabel())
+        if(index < 0 || index >= (long)segmentation_->maxEdgeLabel())
         {
             PyErr_SetObject(
                 PyExc_IndexError,
@@ -141,7 +141,7 @@ struct FaceListProxy
 
     vigra::cellimage::GeoMap::FaceInfo &__getitem__(long index)
     {
-        if(index > (long)segmentation_->maxFaceLabel())
+        if(index < 0 || index >= (long)segmentation_->maxFaceLabel())
         {
             PyErr_SetObject(
                 PyExc_IndexError,
-- 
2.43.0


From f940ffc7789cde820a2ba182fcc04f3028c36b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:56 +0000
Subject: [PATCH 35/39] fix: contours of the cell image refuse negative indices

---
 src/cellimage/cellimage_dart+info.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cellimage/cellimage_dart+info.cxx b/src/cellimage/cellimage_dart+info.cxx
index d710645..d28c7ac 100644
--- a/src/cellimage/cellimage_dart+info.cxx
+++ b/src/cellimage/cellimage_dart+info.cxx
@@ -158,7 +158,7 @@ void defineDartTraverser()
 GeoMap::DartTraverser &contourGetItem(
 	std::vector<GeoMap::DartTraverser> &contours, long index)
 {
-	if(index >= (long)contours.size())
+	if(index < 0 || index >= (long)contours.size())
 	{
 		PyErr_SetObject(PyExc_IndexError, incref(object(index).ptr()));
 		throw_error_already_set();
-- 
2.43.0


From f6c847813b2e210a44f858409880fa2e9ad75378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:46 +0000
Subject: [PATCH 36/39] fix: copying a map keeps planned edge splits and edge
 preferences

The GeoMap copy constructor left splitInfo_ and edgePreferences_ unset, so
splitParallelEdges() was refused on a copy of a map whose splits were planned.
---
 src/geomap/cppmap.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 69069bd..1f260c2 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -278,6 +278,10 @@ GeoMap::GeoMap(const GeoMap &other)
               other.sigmaInverseMappingArray_.end(),
               sigmaInverseMappingArray_.begin());
     edgesSorted_ = other.edgesSorted_;
+    if(other.splitInfo_.get())
+        splitInfo_.reset(new detail::PlannedSplits(*other.splitInfo_));
+    if(other.edgePreferences_.get())
+        edgePreferences_.reset(new EdgePreferences(*other.edgePreferences_));
 
     if(other.faces_.size())
     {
-- 
2.43.0


From 516d8713f7574d4a880ce8ad69d3dfcbdb720b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:21 +0000
Subject: [PATCH 37/39] fix: restored quantile statistics sort their segments

sorted_ was never initialised and not reset by unpickling, so quantile() of a
restored object worked on unsorted segments.
---
 src/python_bindings/statistics.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index 12f6b33..4fb00df 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -152,10 +152,12 @@ class QuantileStatistics : public PolylineStatistics
 
   public:
     QuantileStatistics()
+    : sorted_(false)
     {}
 
     QuantileStatistics(const PointArray<Vector2> &poly,
                        const SplineImageView<5, GrayValue> &siv)
+    : sorted_(false)
     {
         for(unsigned int i = 0; i < poly.size() - 1; ++i)
         {
@@ -234,6 +236,7 @@ class QuantileStatisticsPickleSuite : public boost::python::pickle_suite
     {
         PolylineStatisticsPickleSuite::setstate(w, state);
         list segments = extract<list>(state[-1])();
+        w.sorted_ = false;
         w.segments_.resize(len(segments));
         for(unsigned int i = 0; i < w.segments_.size(); ++i)
         {
-- 
2.43.0


From f4ba5e3bd042021e0dcda90b4a447534765f2af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:21 +0000
Subject: [PATCH 38/39] fix: a detached EdgeProtection can be unpickled

attachHooks() was called with a null map.
---
 src/python_bindings/cppmapmodule_utils.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python_bindings/cppmapmodule_utils.cxx b/src/python_bindings/cppmapmodule_utils.cxx
index 386fba8..0b3da0f 100644
--- a/src/python_bindings/cppmapmodule_utils.cxx
+++ b/src/python_bindings/cppmapmodule_utils.cxx
@@ -62,7 +62,10 @@ struct EdgeProtectionPickleSuite : bp::pickle_suite
 
     static void setstate(EdgeProtection &ep, bp::tuple state)
     {
-        ep.attachHooks(bp::extract<boost::shared_ptr<GeoMap> >(state[0])());
+        boost::shared_ptr<GeoMap> map =
+            bp::extract<boost::shared_ptr<GeoMap> >(state[0])();
+        if(map) // (detached otherwise)
+            ep.attachHooks(map);
     }
 };
 
-- 
2.43.0


From 82b06a8accf8f9bf75b2f6bf085d4000d34e1dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:21 +0000
Subject: [PATCH 39/39] fix: maps whose infinite face has no contour can be
 pickled

contour() dereferenced the end of an empty anchor list.
---
 src/python_bindings/cppmapmodule.cxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 84608fa..0a105d5 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -651,7 +651,10 @@ struct GeoMapPickleSuite : bp::pickle_suite
         for(GeoMap::FaceIterator it = map.facesBegin(); it.inRange(); ++it)
         {
             faceFlags.append((*it)->flags() & ~0xf0000000U);
-            faceAnchors.append((*it)->contour().label());
+            // (the infinite face has no contour if there are no edges)
+            faceAnchors.append(
+                (*it)->contoursBegin() != (*it)->contoursEnd()
+                ? (*it)->contour().label() : 0);
             faceLabels.append((*it)->label());
         }
 
@@ -702,12 +705,13 @@ struct GeoMapPickleSuite : bp::pickle_suite
         std::vector<CellLabel> newFaceLabels(map.maxFaceLabel());
         for(i = 0; i < map.faceCount(); ++i)
         {
-            GeoMap::Dart anchor =
-                map.dart(bp::extract<int>(faceAnchors[i])());
-            anchor.leftFace()->setFlag(
+            int anchorLabel = bp::extract<int>(faceAnchors[i])();
+            GeoMap::FacePtr face =
+                anchorLabel ? map.dart(anchorLabel).leftFace() : map.face(0);
+            face->setFlag(
                 bp::extract<CellFlags>(faceFlags[i])() & ~(CellFlags)0xf0000000);
             if(hasLabels)
-                newFaceLabels[anchor.leftFaceLabel()] =
+                newFaceLabels[face->label()] =
                     bp::extract<CellLabel>(faceLabels[i])();
         }
 
-- 
2.43.0

