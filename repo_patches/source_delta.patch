From 03c4be2af6ad26d549798bd2a01ad22f4b796e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 01/49] fix: removeCollinearPoints read before the first point
 of the polygon

---
 src/clipQuantizedTessellation2d.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index 6a3b36d..d5fcf7f 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -33,11 +33,12 @@ removeCollinearPoints(bp::polygon_data<IntType>& poly) {
   typedef std::vector<polygon_data<IntType> > PolygonSet;
 
   // Find the unique set of points bounding the union polygon.
+  // Note the last point of poly repeats the first one.
   const int n = poly.size();
   std::vector<Point> points;
   Segment segment;
   for (int i = 0; i != n-1; ++i) {
-    segment = bp::construct<Segment>(*(poly.begin()+(i-1)%n), *(poly.begin()+(i+1)%n));
+    segment = bp::construct<Segment>(*(poly.begin()+(i+n-2)%(n-1)), *(poly.begin()+i+1));
     if (!bp::contains(segment, *(poly.begin() + i))) points.push_back(*(poly.begin() + i));
   }
   POLY_ASSERT2(points.size() >= 3, points.size());
-- 
2.43.0


From 4394bd8f6762942ebd74ec6075171dbad519b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 02/49] fix: orphan adoption kept an arbitrary piece of a cell
 instead of the one with its generator

---
 src/clipQuantizedTessellation2d.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index d5fcf7f..3a96acc 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -320,6 +320,12 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
       cellSet &= localBoundary;
       POLY_ASSERT2(cellSet.size() == 1, cellSet.size());  // Hopefully no more new orphans!
 
+      // If there are several pieces after all, take the one containing the generator.
+      const Point gen = bp::construct<Point>(qmesh.generators[igen].x, qmesh.generators[igen].y);
+      for (unsigned k = 1; k < cellSet.size(); ++k) {
+        if (bp::contains(cellSet[k], gen)) std::swap(cellSet[0], cellSet[k]);
+      }
+
       removeCollinearPoints(cellSet[0]); // Get rid of any collinear points the intersection operation may have left behind.
 
       // Read out the new cell geometry.
-- 
2.43.0


From 30aa02f070769926da581b15e583368b8faf8c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 03/49] fix: position hashes were truncated to int, so distinct
 points were taken for degenerate ones

---
 src/polytope_geometric_utilities.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 653504c..6552c94 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -61,7 +61,7 @@ template<int Dimension, typename RealType> struct Hasher;
 template<typename RealType> struct Hasher<2, RealType> {
 
   // typedef typename DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   static unsigned  num1dbits()                { return 31U; }
   //static unsigned  num1dbits()                { return 30U; }
@@ -172,7 +172,7 @@ template<typename RealType> struct Hasher<2, RealType> {
 template<typename RealType> struct Hasher<3, RealType> {
 
   // typedef DimensionTraits<3, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   static unsigned  num1dbits()                { return 21U; }
   static CoordHash coordMax()                 { return (1ULL << num1dbits()) - 1ULL; }
@@ -1359,7 +1359,7 @@ uniquePoints(const std::vector<RealType>& points,
   POLY_ASSERT(points.size() % Dimension == 0);
   typedef geometry::Hasher<Dimension, RealType> HasherType;
   // typedef DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   // // Compute the bounding box.
   // RealType xmin[Dimension], xmax[Dimension];
-- 
2.43.0


From c35d87c0a2f68cb947ad705eca749a5aaece4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 04/49] fix: MeshEditor::deleteCells put the remaining cells at
 their old indices

---
 src/MeshEditor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 1a32cfb..de2d0ac 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -713,7 +713,7 @@ cleanMesh(std::vector<unsigned>& cellMap,
         //POLY_ASSERT(faceMap.find(iface) != faceMap.end());
         if (mFaceMask[iface] == 1) {
           // int newFace = (*itr >= 0 ? faceMap[iface] : ~faceMap[iface]);
-          newCells[i].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
+          newCells[cellMap[i]].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
         }
       }
     }
-- 
2.43.0


From f8bd6e672e9634266074b1ddca38624636fcfd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 05/49] fix: deleting cells or edges left stale boundary node
 and face lists

---
 src/MeshEditor.cc  | 4 ++++
 src/deleteCells.hh | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index de2d0ac..0ac4bfe 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -6,6 +6,7 @@
 
 #include "polytope.hh"
 #include "MeshEditor.hh"
+#include "findBoundaryElements.hh"
 
 namespace polytope {
 
@@ -739,6 +740,9 @@ cleanMesh(std::vector<unsigned>& cellMap,
     mMesh.sharedFaces[idomain] = newFaces;
   }
 
+  // Update the boundary nodes and faces.
+  findBoundaryElements(mMesh, mMesh.boundaryFaces, mMesh.boundaryNodes);
+
   // If there was a convex hull in the mesh, it's probably no longer valid.
   mMesh.convexHull = PLC<Dimension, RealType>();
 
diff --git a/src/deleteCells.hh b/src/deleteCells.hh
index a15147b..4bba52d 100644
--- a/src/deleteCells.hh
+++ b/src/deleteCells.hh
@@ -17,6 +17,7 @@
 #include <map>
 
 #include "polytope.hh"
+#include "findBoundaryElements.hh"
 
 namespace polytope {
 
@@ -154,6 +155,9 @@ deleteCells(Tessellation<Dimension, RealType>& mesh,
     mesh.sharedFaces[idomain] = newFaces;
   }
 
+  // Update the boundary nodes and faces.
+  findBoundaryElements(mesh, mesh.boundaryFaces, mesh.boundaryNodes);
+
   // If there was a convex hull in the mesh, it's probably no longer valid.
   mesh.convexHull = PLC<Dimension, RealType>();
 
-- 
2.43.0


From a7a2b3d012a1d19e342edf8db918b1f239439427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 06/49] fix: distributed tessellation crashed when a domain
 held a single generator

---
 src/DistributedTessellator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index afed0ed..201fb03 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -898,10 +898,10 @@ computeDomainNeighbors(const vector<RealType>& points,
       }
     }
 
-    // We have a lower-dimension hull. Every point is visible.
+    // We have a lower-dimension hull. Every point is visible, so there is no
+    // need for a local tessellation (a lone generator does not even have one).
     else
     {
-      mSerialTessellator->tessellate(points, localMesh);
       localHull.points = points;
     }
     
-- 
2.43.0


From d8cbd2a1f29fb11570369ac1b63d7b243ee7ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 07/49] fix: distributed tessellation used the relative
 degeneracy as a length and overflowed its position hashes

---
 src/DistributedTessellator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index 201fb03..39dfa12 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -445,7 +445,7 @@ computeDistributedTessellation(const vector<RealType>& points,
 
     // Compute the bounding box for the mesh coordinates.
     this->computeBoundingBox(mesh.nodes, rlow, rhigh);
-    const RealType dx = mSerialTessellator->degeneracy();
+    const RealType dx = mSerialTessellator->degeneracy()*DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh);
     // const RealType dx = DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh)/(1LL << 34);
     
     // Sort the shared elements.  This should make the ordering consistent on all domains without communication.
@@ -859,7 +859,7 @@ computeDomainNeighbors(const vector<RealType>& points,
   vector<ConvexHull> domainHulls; // (numProcs);
   vector<unsigned> domainCellOffset(1, 0);
   {
-    ConvexHull localHull = DT::convexHull(points, rlow, mSerialTessellator->degeneracy());;
+    ConvexHull localHull = DT::convexHull(points, rlow, mSerialTessellator->degeneracy()*DT::maxLength(rlow, rhigh));
 
     // We can skip some work here if the convex hull is of lower dimension than the 
     // problem itself. We determine the set of visible points for a full-dimension
-- 
2.43.0


From a2e0f18ba501f6e982097689bda885a5e4985fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 08/49] fix: cleaning edges in parallel reused and modified
 send buffers before the sends completed

---
 src/MeshEditor.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 0ac4bfe..8236029 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -379,14 +379,17 @@ flagEdgesForCleaning(const RealType edgeTol,
     }
     
     // Send the sharedEdgeMask to each neighbor asynchronously
-    vector<char> localBuffer;
+    vector<vector<char> > localBuffers(mMesh.neighborDomains.size());
+    vector<unsigned> localBufferSizes(mMesh.neighborDomains.size());
     vector<MPI_Request> sendRequests;
     sendRequests.reserve(2*mMesh.neighborDomains.size());
     ineighbor = 0;
     for (vector<unsigned>::const_iterator otherItr = mMesh.neighborDomains.begin();
          otherItr != mMesh.neighborDomains.end(); ++otherItr, ++ineighbor) {
+      vector<char>& localBuffer = localBuffers[ineighbor];
       serialize(sharedEdgeMask[ineighbor], localBuffer);
-      unsigned localBufferSize = localBuffer.size();
+      unsigned& localBufferSize = localBufferSizes[ineighbor];
+      localBufferSize = localBuffer.size();
       const unsigned otherProc = *otherItr;
       sendRequests.push_back(MPI_Request());
       MPI_Isend(&localBufferSize, 1, MPI_UNSIGNED, otherProc, 1, MPI_COMM_WORLD, &sendRequests.back());
@@ -1205,14 +1208,17 @@ flagBoundaryEdgesForCleaning(const RealType edgeTol,
     }
     
     // Send the sharedEdgeMask to each neighbor asynchronously
-    vector<char> localBuffer;
+    vector<vector<char> > localBuffers(mMesh.neighborDomains.size());
+    vector<unsigned> localBufferSizes(mMesh.neighborDomains.size());
     vector<MPI_Request> sendRequests;
     sendRequests.reserve(2*mMesh.neighborDomains.size());
     ineighbor = 0;
     for (vector<unsigned>::const_iterator otherItr = mMesh.neighborDomains.begin();
          otherItr != mMesh.neighborDomains.end(); ++otherItr, ++ineighbor) {
+      vector<char>& localBuffer = localBuffers[ineighbor];
       serialize(sharedEdgeMask[ineighbor], localBuffer);
-      unsigned localBufferSize = localBuffer.size();
+      unsigned& localBufferSize = localBufferSizes[ineighbor];
+      localBufferSize = localBuffer.size();
       const unsigned otherProc = *otherItr;
       sendRequests.push_back(MPI_Request());
       MPI_Isend(&localBufferSize, 1, MPI_UNSIGNED, otherProc, 1, MPI_COMM_WORLD, &sendRequests.back());
-- 
2.43.0


From 2976dc085f74b288aea3e1119f5d1c66326619ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 09/49] fix: checkDistributedTessellation read past the shared
 lists when domains disagree about them

---
 src/checkDistributedTessellation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checkDistributedTessellation.hh b/src/checkDistributedTessellation.hh
index dd27e51..7b067f4 100644
--- a/src/checkDistributedTessellation.hh
+++ b/src/checkDistributedTessellation.hh
@@ -108,7 +108,7 @@ checkConsistentCommInfo(const std::string& label,
           const unsigned kk = std::distance(neighborDomains.begin(), neighbItr);
           if (recvHashes.size() != sharedIDs[kk].size()) {
             std::stringstream os;
-            os << "Domain " << sendProc << " -> " << rank << " disagree about the number of shared hashes:  " << nother << " != " << sharedIDs[k].size();
+            os << "Domain " << sendProc << " -> " << rank << " disagree about the number of shared hashes:  " << nother << " != " << sharedIDs[kk].size();
             result = os.str();
           } else {
             unsigned i = 0;
-- 
2.43.0


From 26530ad8cefbd3f309de1c2d8016cdcd10c361a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 10/49] fix: distributed tessellation without communication
 info read nonexistent shared lists

---
 src/DistributedTessellator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index 39dfa12..9a98b3a 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -549,6 +549,9 @@ computeDistributedTessellation(const vector<RealType>& points,
 
 
   // Remove any neighbors we don't actually share any info with.
+  // (That is all of them if the communication info was not requested.)
+  mesh.sharedNodes.resize(mesh.neighborDomains.size());
+  mesh.sharedFaces.resize(mesh.neighborDomains.size());
   unsigned numNeighbors = mesh.neighborDomains.size();
   for (int i = numNeighbors - 1; i != -1; --i) {
     if (mesh.sharedNodes[i].size() == 0 and mesh.sharedFaces[i].size() == 0) {
-- 
2.43.0


From 00d8c82f3a9f14727292d889dc7f73b7b2ee70cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 11/49] fix: the order of shared nodes and faces depended on
 roundoff in nearly equal coordinates

---
 src/DistributedTessellator.cc | 37 +++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index 9a98b3a..b0e024c 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -55,6 +55,38 @@ sortByKeys(vector<Value>& values, const vector<Key>& keys) {
   for (unsigned i = 0; i != values.size(); ++i) values[i] = stuff[i].second;
 }
 
+//------------------------------------------------------------------------------
+// Lexicographically sort quantized positions, where coordinates closer than tol
+// are considered to be equal.  Different domains compute the positions of their
+// shared elements with different roundoff, so the exact order of nearly equal
+// coordinates is not the same on all of them.
+//------------------------------------------------------------------------------
+template<int Dimension, typename Point>
+struct CompareCoordinate {
+  int i;
+  CompareCoordinate(const int ii): i(ii) {}
+  bool operator()(const Point& a, const Point& b) const { return a[i] < b[i]; }
+};
+
+template<int Dimension, typename Point, typename CoordType>
+void
+sortPositions(typename vector<Point>::iterator begin,
+              typename vector<Point>::iterator end,
+              const CoordType tol,
+              const int i = 0) {
+  if (i == Dimension) {
+    std::sort(begin, end);
+    return;
+  }
+  std::sort(begin, end, CompareCoordinate<Dimension, Point>(i));
+  while (begin != end) {
+    typename vector<Point>::iterator last = begin + 1;
+    while (last != end and (*last)[i] - (*(last - 1))[i] <= tol) ++last;
+    sortPositions<Dimension, Point, CoordType>(begin, last, tol, i + 1);
+    begin = last;
+  }
+}
+
 //------------------------------------------------------------------------------
 // Output an intermediate tessellation
 //------------------------------------------------------------------------------
@@ -449,6 +481,7 @@ computeDistributedTessellation(const vector<RealType>& points,
     // const RealType dx = DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh)/(1LL << 34);
     
     // Sort the shared elements.  This should make the ordering consistent on all domains without communication.
+    const CoordHash hashTol = 64;
     unsigned numNeighbors = mesh.neighborDomains.size();
     for (unsigned idomain = 0; idomain != numNeighbors; ++idomain) {
 
@@ -504,7 +537,7 @@ computeDistributedTessellation(const vector<RealType>& points,
       // // Blago!
       
       
-      sort(nodePoints.begin(), nodePoints.end());
+      sortPositions<Dimension, Point, CoordHash>(nodePoints.begin(), nodePoints.end(), hashTol);
       for (unsigned i = 0; i != mesh.sharedNodes[idomain].size(); ++i) mesh.sharedNodes[idomain][i] = nodePoints[i].index;
 
 
@@ -516,7 +549,7 @@ computeDistributedTessellation(const vector<RealType>& points,
                                                                                           *itr,
                                                                                           &rlow[0],
                                                                                           dx));
-      sort(facePoints.begin(), facePoints.end());
+      sortPositions<Dimension, Point, CoordHash>(facePoints.begin(), facePoints.end(), hashTol);
       for (unsigned i = 0; i != mesh.sharedFaces[idomain].size(); ++i) mesh.sharedFaces[idomain][i] = facePoints[i].index;
     }
   }
-- 
2.43.0


From 899528515e626fa80d6b5e6603817e63f84fa826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 12/49] fix: cleaning edges in parallel took edges between two
 own cells for shared ones and read past the neighbor's mask

---
 src/MeshEditor.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 8236029..a28fdf8 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -307,7 +307,19 @@ flagEdgesForCleaning(const RealType edgeTol,
       POLY_ASSERT(nodeIndexToSharePosition.size() == mMesh.sharedNodes[ineighbor].size());
       domainNodeMaps[ineighbor] = nodeIndexToSharePosition;
 
-      // Consider all edges on this domain. The shared ones consist of two shared nodes.
+      // The edges of the faces we share with this neighbor.
+      set<EdgeType> sharedFaceEdges;
+      for (vector<unsigned>::const_iterator faceItr = mMesh.sharedFaces[ineighbor].begin();
+           faceItr != mMesh.sharedFaces[ineighbor].end(); ++faceItr) {
+        const vector<unsigned>& faceNodes = mMesh.faces[*faceItr];
+        for (unsigned i = 0; i != faceNodes.size(); ++i) {
+          sharedFaceEdges.insert(internal::hashEdge(faceNodes[i], faceNodes[(i+1) % faceNodes.size()]));
+        }
+      }
+
+      // Consider all edges on this domain. The shared ones consist of two shared nodes
+      // (in 2D we also need the face itself to be shared: an edge between two of our
+      // own cells can have both of its nodes on the same neighbor).
       for (typename map<EdgeType, int>::const_iterator edgeItr = edgeToIndex.begin();
            edgeItr != edgeToIndex.end();
            ++edgeItr) {
@@ -325,7 +337,8 @@ flagEdgesForCleaning(const RealType edgeTol,
         map<unsigned,unsigned>::const_iterator it0 = nodeIndexToSharePosition.find(inode0);
         map<unsigned,unsigned>::const_iterator it1 = nodeIndexToSharePosition.find(inode1);
         if (it0 != nodeIndexToSharePosition.end() and 
-            it1 != nodeIndexToSharePosition.end()) {
+            it1 != nodeIndexToSharePosition.end() and
+            (Dimension > 2 or sharedFaceEdges.find(edge) != sharedFaceEdges.end())) {
           const EdgeType sharedEdge = internal::hashEdge(it0->second, it1->second);
           sharedEdges[ineighbor].push_back(sharedEdge);
           sharedEdgeReverse[iedge].push_back(ineighbor);
-- 
2.43.0


From d523ed1eb0c81cc0790c3f629116ccdea1e2a5aa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 13/49] fix: within() uses the vertices the PLC facets name

It read numFacets vertices from the first facet's first vertex on, which is
the boundary only if the facets use consecutive vertices in order.
---
 src/within.hh | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/within.hh b/src/within.hh
index ad7543e..8fe3b05 100644
--- a/src/within.hh
+++ b/src/within.hh
@@ -33,13 +33,20 @@ struct WithinBoundaryFunctor<2, RealType> {
 		  const RealType* vertices,
 		  const std::vector<std::vector<int> >& facets) {
     const unsigned numFacets = facets.size();
-    unsigned i = facets[0][0];
-
-    // Check if point is on the boundary of the facet
-    bool onBoundary = geometry::pointOnPolygon(point, numFacets, &vertices[2*i]);
-
-    // Check if point is on the interior
-    bool inBoundary = geometry::pointInPolygon(point, numFacets, &vertices[2*i]);
+    bool onBoundary = false, inBoundary = false;
+    for (unsigned ifacet = 0; ifacet != numFacets; ++ifacet) {
+      POLY_ASSERT(facets[ifacet].size() == 2);
+      const RealType* a = &vertices[2*facets[ifacet][0]];
+      const RealType* b = &vertices[2*facets[ifacet][1]];
+      const RealType ends[4] = {a[0], a[1], b[0], b[1]};
+
+      // Check if point is on the boundary of the facet
+      onBoundary = onBoundary or geometry::pointOnPolygon(point, 2, ends);
+
+      // Check if a ray from the point crosses the facet
+      if (((a[1] > point[1]) != (b[1] > point[1])) and
+          (point[0] < (a[0] + (b[0] - a[0])*(point[1] - a[1])/(b[1] - a[1])))) inBoundary = not inBoundary;
+    }
 
     if (onBoundary)                        return 2;
     else if(inBoundary and not onBoundary) return 1;
-- 
2.43.0


From 1dceba5f13cf6b3215c112d80ce21f765e520aff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 14/49] fix: intersect() drops a crossing only if it is the
 same point as an earlier one

The test for a repeated point compared both coordinates with the last y
(result.back() - 1 is a value, not the element before it), so crossings that
shared a coordinate were lost and shared vertices could be counted twice.
---
 src/intersect.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/intersect.hh b/src/intersect.hh
index bcbcbe8..c6b0fbb 100644
--- a/src/intersect.hh
+++ b/src/intersect.hh
@@ -46,11 +46,11 @@ struct IntersectFacetsFunctor<2, RealType> {
                                                    intersectionPoint);
       addPoint = false;
       if(intersects) {
-        if (numIntersections == 0) addPoint = true;
-        else {
-          if (intersectionPoint[0] != result.back() - 1 and
-              intersectionPoint[1] != result.back() ) addPoint = true;
-          else addPoint = false;
+        // Neighboring facets share a vertex, so only count each point once.
+        addPoint = true;
+        for (unsigned k = result.size() - 2*numIntersections; k != result.size(); k += 2) {
+          if (intersectionPoint[0] == result[k] and
+              intersectionPoint[1] == result[k+1]) addPoint = false;
         }
       }
       
-- 
2.43.0


From b9a0b31de7fc4708fb0c7673671b9f88e28cb14d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 15/49] fix: x component of the 3D facet normal in
 computeNormal

---
 src/convexIntersect.hh              | 2 +-
 src/polytope_geometric_utilities.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convexIntersect.hh b/src/convexIntersect.hh
index 095a9c1..ca7ec46 100644
--- a/src/convexIntersect.hh
+++ b/src/convexIntersect.hh
@@ -95,7 +95,7 @@ void computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
                    double& nx, double& ny, double& nz) {
   const double dx_ab = bx - ax, dy_ab = by - ay, dz_ab = bz - az;
   const double dx_ac = cx - ax, dy_ac = cy - ay, dz_ac = cz - az;
-  nx = dy_ab*dz_ac - dz_ab*dz_ac;
+  nx = dy_ab*dz_ac - dz_ab*dy_ac;
   ny = dz_ab*dx_ac - dx_ab*dz_ac;
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 6552c94..917fe3a 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -1577,7 +1577,7 @@ computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
               double& nx, double& ny, double& nz) {
   const double dx_ab = bx - ax, dy_ab = by - ay, dz_ab = bz - az;
   const double dx_ac = cx - ax, dy_ac = cy - ay, dz_ac = cz - az;
-  nx = dy_ab*dz_ac - dz_ab*dz_ac;
+  nx = dy_ab*dz_ac - dz_ab*dy_ac;
   ny = dz_ab*dx_ac - dx_ab*dz_ac;
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
-- 
2.43.0


From 7fc5022a73e8b0770d108898c9205402792f2ca1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 16/49] fix: convexIntersect tests the cross products of the
 edge directions in 3D

It crossed vertex positions (relative to the origin) and asked whether all of
a is strictly off a plane through a vertex of a, so it could never separate
two polyhedra that only an edge-edge axis separates.
---
 src/convexIntersect.hh | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/convexIntersect.hh b/src/convexIntersect.hh
index ca7ec46..54a40f7 100644
--- a/src/convexIntersect.hh
+++ b/src/convexIntersect.hh
@@ -248,30 +248,34 @@ convexIntersect(const ReducedPLC<3, RealType>& a, const ReducedPLC<3, RealType>&
   }
 
   // Test against the cross products of the edges.
-  int sidea, sideb;
   for (typename EdgeSet::const_iterator aItr = aEdges.begin();
        aItr != aEdges.end();
        ++aItr) {
-    i = aItr->first;
+    const RealType* a1 = &a.points[3*aItr->first];
+    const RealType* a2 = &a.points[3*aItr->second];
     for (typename EdgeSet::const_iterator bItr = bEdges.begin();
          bItr != bEdges.end();
          ++bItr) {
-      j = bItr->first;
+      const RealType* b1 = &b.points[3*bItr->first];
+      const RealType* b2 = &b.points[3*bItr->second];
       computeNormal(RealType(0), RealType(0), RealType(0),
-                    a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
-                    b.points[3*j], b.points[3*j + 1], b.points[3*j + 2],
+                    RealType(a2[0] - a1[0]), RealType(a2[1] - a1[1]), RealType(a2[2] - a1[2]),
+                    RealType(b2[0] - b1[0]), RealType(b2[1] - b1[1]), RealType(b2[2] - b1[2]),
                     nx, ny, nz);
 
-      // Test all of a.
-      sidea = compare(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
-                      nx, ny, nz,
-                      a.points);
-      if (sidea == 0) continue;
-      sideb = compare(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
-                      nx, ny, nz,
-                      b.points);
-      if (sideb == 0) continue;
-      if (sidea*sideb < 0) return false;
+      // Project both on this axis: are they separated?
+      double proj, amin = 0.0, amax = 0.0, bmin = 0.0, bmax = 0.0;
+      for (k = 0; k != nva; ++k) {
+        proj = nx*a.points[3*k] + ny*a.points[3*k + 1] + nz*a.points[3*k + 2];
+        if (k == 0 or proj < amin) amin = proj;
+        if (k == 0 or proj > amax) amax = proj;
+      }
+      for (k = 0; k != nvb; ++k) {
+        proj = nx*b.points[3*k] + ny*b.points[3*k + 1] + nz*b.points[3*k + 2];
+        if (k == 0 or proj < bmin) bmin = proj;
+        if (k == 0 or proj > bmax) bmax = proj;
+      }
+      if (amax < bmin or bmax < amin) return false;
     }
   }
 
-- 
2.43.0


From d8cfb5bbac0d9f47eac0b86d5b7918ad5d6056e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 17/49] fix: collinear() compares lengths with each other and
 looks at every point

The squared lengths were compared with the dimensionless tolerance, so any
three points closer than sqrt(tol) were called collinear, and the version for
a cloud of points skipped the third point in 3D.
---
 src/polytope_geometric_utilities.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 917fe3a..80eaf2a 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -433,7 +433,7 @@ collinear(const RealType* a, const RealType* b, const RealType* c, const RealTyp
     abmag += ab[j]*ab[j];
     acmag += ac[j]*ac[j];
   }
-  if (abmag < tol or acmag < tol) return true;
+  if (abmag <= tol*acmag or acmag <= tol*abmag) return true;
   abmag = sqrt(abmag);
   acmag = sqrt(acmag);
   for (unsigned j = 0; j != Dimension; ++j) {
@@ -483,8 +483,8 @@ collinear(const std::vector<RealType> points, const RealType tol) {
   bool isCollinear = true;
   int i;
   if (points.size()/Dimension > 1) {
-    i = Dimension;
-    while (isCollinear and i != points.size()/Dimension) {
+    i = 2;
+    while (isCollinear and i < points.size()/Dimension) {
       isCollinear *= collinear<Dimension, RealType>(&points[0],
 						    &points[Dimension],
 						    &points[Dimension*i],
-- 
2.43.0


From f008c84dc78856cf4ec05c8ee01a5903faeac14c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 18/49] fix: convexHull_2d uses dx as a length when it looks
 for collinear points

dx was passed to collinear() as the tolerance on squared lengths and angles, so
a set with two points closer than sqrt(dx), or any set in units where dx is
large, was reduced to a segment.
---
 src/convexHull_2d.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/convexHull_2d.hh b/src/convexHull_2d.hh
index f0f9623..e0a5a15 100644
--- a/src/convexHull_2d.hh
+++ b/src/convexHull_2d.hh
@@ -119,12 +119,18 @@ convexHull_2d(const std::vector<RealType>& points,
     return plc;
   }
 
-  // Check if the input points are collinear.
+  // Check if the input points are collinear to within dx, using the longest baseline from point 0.
+  for (i = 1; i != n; ++i) {
+    if (geometry::distance<2, RealType>(&points[0], &points[2*i]) >
+        geometry::distance<2, RealType>(&points[0], &points[2*j])) j = i;
+  }
+  const RealType jlen = geometry::distance<2, RealType>(&points[0], &points[2*j]);
   bool collinear = true;
   POLY_ASSERT(n > 2);
-  i = 2;
+  i = 1;
   while (collinear and i != n) {
-    collinear = geometry::collinear<2,RealType>(&points[0], &points[2*j], &points[2*i], dx);
+    collinear = (std::abs((points[2*j] - points[0])*(points[2*i+1] - points[1]) -
+                          (points[2*j+1] - points[1])*(points[2*i] - points[0])) <= 2*dx*jlen);
     ++i;
   }
   
-- 
2.43.0


From d92f480dfae4553980dc4f73091025246ce83419 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 19/49] fix: rayPlaneIntersection measures the ray origin's
 height along the plane normal

The parallel case used dot(p_ray, delta), which says nothing about the plane.
---
 src/polytope_geometric_utilities.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 80eaf2a..1fc910b 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -704,7 +704,7 @@ rayPlaneIntersection(const RealType* p_ray,
   const RealType delta[3] = {p_plane[0] - p_ray[0], p_plane[1] - p_ray[1], p_plane[2] - p_ray[2]};
   if (std::abs(ndots) < tol) {
     // Ray is parallel to the plane.
-    if (std::abs(dot<3, RealType>(p_ray, delta)) < tol) {
+    if (std::abs(dot<3, RealType>(n_plane, delta)) < tol) {
       // Ray is in the plane, just choose the origin point.
       result[0] = p_ray[0]; result[1] = p_ray[1]; result[2] = p_ray[2];
       return true;
-- 
2.43.0


From 1c133a8199dc029aaa550d495ebcbe980e0c9d86 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 20/49] fix: rayBoxIntersection only reports points on the box

It returned the nearest of the six planes whether or not the ray meets it
inside the box, and so also reported rays that miss the box.
---
 src/polytope_geometric_utilities.hh | 33 +++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 1fc910b..3503a1b 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -825,6 +825,21 @@ rayCircleIntersection(const RealType* p_ray,
   return true;
 }
 
+//------------------------------------------------------------------------------
+// Determine if a point is in a box to within some tolerance.
+//------------------------------------------------------------------------------
+template<typename RealType> 
+bool
+pointInBox(const RealType* point,
+           const RealType* box_min,
+           const RealType* box_max,
+           const RealType& tol) {
+  for (unsigned j = 0; j != 3; ++j) {
+    if (point[j] < box_min[j] - tol or point[j] > box_max[j] + tol) return false;
+  }
+  return true;
+}
+
 //------------------------------------------------------------------------------
 // Find the closest point of intersection for ray and a box.
 // Returns an int indicating which plane is intersected:
@@ -859,7 +874,8 @@ rayBoxIntersection(RealType* p_ray,
 
   // x=xmin plane.
   n_plane[0] = 1.0; n_plane[1] = 0.0; n_plane[2] = 0.0;
-  if (rayPlaneIntersection(p_ray, n_ray, box_min, n_plane, tol, candidate)) {
+  if (rayPlaneIntersection(p_ray, n_ray, box_min, n_plane, tol, candidate) and
+      pointInBox(candidate, box_min, box_max, tol)) {
     iplane = 0;
     dist = distance<3, RealType>(p_ray, candidate);
     minDist = dist;
@@ -867,7 +883,8 @@ rayBoxIntersection(RealType* p_ray,
   }
 
   // x=xmax plane.
-  if (rayPlaneIntersection(p_ray, n_ray, box_max, n_plane, tol, candidate)) {
+  if (rayPlaneIntersection(p_ray, n_ray, box_max, n_plane, tol, candidate) and
+      pointInBox(candidate, box_min, box_max, tol)) {
     dist = distance<3, RealType>(p_ray, candidate);
     if (dist < minDist) {
       iplane = 1;
@@ -878,7 +895,8 @@ rayBoxIntersection(RealType* p_ray,
 
   // y=ymin plane.
   n_plane[0] = 0.0; n_plane[1] = 1.0; n_plane[2] = 0.0;
-  if (rayPlaneIntersection(p_ray, n_ray, box_min, n_plane, tol, candidate)) {
+  if (rayPlaneIntersection(p_ray, n_ray, box_min, n_plane, tol, candidate) and
+      pointInBox(candidate, box_min, box_max, tol)) {
     dist = distance<3, RealType>(p_ray, candidate);
     if (dist < minDist) {
       iplane = 2;
@@ -888,7 +906,8 @@ rayBoxIntersection(RealType* p_ray,
   }
 
   // y=ymax plane.
-  if (rayPlaneIntersection(p_ray, n_ray, box_max, n_plane, tol, candidate)) {
+  if (rayPlaneIntersection(p_ray, n_ray, box_max, n_plane, tol, candidate) and
+      pointInBox(candidate, box_min, box_max, tol)) {
     dist = distance<3, RealType>(p_ray, candidate);
     if (dist < minDist) {
       iplane = 3;
@@ -899,7 +918,8 @@ rayBoxIntersection(RealType* p_ray,
 
   // z=zmin plane.
   n_plane[0] = 0.0; n_plane[1] = 0.0; n_plane[2] = 1.0;
-  if (rayPlaneIntersection(p_ray, n_ray, box_min, n_plane, tol, candidate)) {
+  if (rayPlaneIntersection(p_ray, n_ray, box_min, n_plane, tol, candidate) and
+      pointInBox(candidate, box_min, box_max, tol)) {
     dist = distance<3, RealType>(p_ray, candidate);
     if (dist < minDist) {
       iplane = 4;
@@ -909,7 +929,8 @@ rayBoxIntersection(RealType* p_ray,
   }
 
   // z=zmax plane.
-  if (rayPlaneIntersection(p_ray, n_ray, box_max, n_plane, tol, candidate)) {
+  if (rayPlaneIntersection(p_ray, n_ray, box_max, n_plane, tol, candidate) and
+      pointInBox(candidate, box_min, box_max, tol)) {
     dist = distance<3, RealType>(p_ray, candidate);
     if (dist < minDist) {
       iplane = 5;
-- 
2.43.0


From 8bfc445731c569fdc9f0d9d0386e465732a608f9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 21/49] fix: between() compares like with like

A product of four lengths was compared with tol times two, and a squared length
with tol, so the answer depended on the units of the coordinates.
---
 src/polytope_geometric_utilities.hh | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 3503a1b..6cc3592 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -462,14 +462,21 @@ between(const RealType* a, const RealType* b, const RealType* c, const RealType
   }
 
   // If c is equal to either endpoint, we count that as between.
-  if (std::min(ac_mag2, bc_mag2) <= tol*ab_mag2) return true;
+  if (std::min(ac_mag2, bc_mag2) <= tol*tol*ab_mag2) return true;
 
   // If a & b are the same point, but not c it's outside.
-  if (ab_mag2 <= tol) return false;
+  if (ab_mag2 <= tol*tol*ac_mag2) return false;
 
   // The points are distinct.
   const RealType thpt = dot<Dimension, RealType>(ab, ac);
-  return ((thpt > 0) and (std::abs(thpt*thpt - ab_mag2*ac_mag2) < tol*ab_mag2) and (ac_mag2 <= ab_mag2));
+  RealType cross_mag2 = 0;
+  for (unsigned i = 0; i != Dimension; ++i) {
+    for (unsigned j = 0; j != i; ++j) {
+      const RealType cij = ab[i]*ac[j] - ab[j]*ac[i];
+      cross_mag2 += cij*cij;
+    }
+  }
+  return ((thpt > 0) and (cross_mag2 <= tol*tol*ab_mag2*ab_mag2) and (ac_mag2 <= ab_mag2));
 }
 
 
-- 
2.43.0


From 3032db6e06144120e07a0c1065c7821e813f976e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 22/49] fix: segmentIntersection2D recognizes parallel segments
 despite rounding

The cross product had to be exactly zero, so two collinear segments that do not
meet could be reported as intersecting wherever rounding put the quotients.
---
 src/polytope_geometric_utilities.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 6cc3592..2c0a0d2 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -1232,7 +1232,7 @@ segmentIntersection2D(const RealType* a,
    RealType r1_cross_r2[3];
    cross<2,RealType>(r1, r2, r1_cross_r2);
    // Parallel segments
-   if( r1_cross_r2[2] == 0 ) return false;
+   if( std::abs(r1_cross_r2[2]) <= 1.0e-12*sqrt(dot<2,RealType>(r1, r1)*dot<2,RealType>(r2, r2)) ) return false;
    RealType t1[3], t2[3];
    cross<2,RealType>(ca, r2, t1);
    cross<2,RealType>(ca, r1, t2);
-- 
2.43.0


From 8094a7441d98daaa8609fb51798a3e1a27cc3cbc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 23/49] fix: splitting a segment in the 2D CSG tree reversed
 one of the pieces

---
 src/PLC_CSG_2d.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLC_CSG_2d.hh b/src/PLC_CSG_2d.hh
index 5b30dc5..ccbe6ad 100644
--- a/src/PLC_CSG_2d.hh
+++ b/src/PLC_CSG_2d.hh
@@ -209,14 +209,14 @@ void Line<RealType>::splitSegment(const Segment<RealType>& segment,
       Vertex<RealType> vi = segment.vertices[0], vj = segment.vertices[1];
       if (ti != BACK) f.push_back(vi);
       if (ti != FRONT) b.push_back(vi);
-      if (tj != BACK) f.push_back(vj);
-      if (tj != FRONT) b.push_back(vj);
       if ((ti | tj) == SPANNING) {
         double t = (this->w - dot(this->normal, vi.pos)) / dot(this->normal, vj.pos - vi.pos);
         Vertex<RealType> v = interpolate(vi, vj, t);
         f.push_back(v);
         b.push_back(v);
       }
+      if (tj != BACK) f.push_back(vj);
+      if (tj != FRONT) b.push_back(vj);
       if (f.size() == 2) front.push_back(Segment<RealType>(f));
       if (b.size() == 2) back.push_back(Segment<RealType>(b));
       break;
-- 
2.43.0


From b1f41be74a6cb1fb05f10e695c3bad5d47b5c4eb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 24/49] fix: the tolerance of the CSG trees scales with the
 normals it is compared to

---
 src/PLC_CSG_2d.hh | 5 ++++-
 src/PLC_CSG_3d.hh | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/PLC_CSG_2d.hh b/src/PLC_CSG_2d.hh
index ccbe6ad..87f1d3b 100644
--- a/src/PLC_CSG_2d.hh
+++ b/src/PLC_CSG_2d.hh
@@ -175,9 +175,12 @@ void Line<RealType>::splitSegment(const Segment<RealType>& segment,
   int segmentType = 0;
   std::vector<int> types;
 
+  // The normal is as long as the segment that made this line, so scale the tolerance to match.
+  const double nx = this->normal.x, ny = this->normal.y;
+  const double tol = EPSILON*(nx*nx + ny*ny);
   for (size_t i = 0; i < 2; i++) {
     double t = dot(this->normal, segment.vertices[i].pos) - this->w;
-    int type = (t < -EPSILON) ? BACK : ((t > EPSILON) ? FRONT : COLLINEAR);
+    int type = (t < -tol) ? BACK : ((t > tol) ? FRONT : COLLINEAR);
     segmentType |= type;
     types.push_back(type);
   }
diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index 12653f4..56e853f 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -181,9 +181,13 @@ void Plane<RealType>::splitPolygon(const Polygon<RealType>& polygon,
   int polygonType = 0;
   std::vector<int> types;
 
+  // The normal is as long as the area of the polygon that made this plane, so scale the tolerance to match.
+  const double nx = this->normal.x, ny = this->normal.y, nz = this->normal.z;
+  const double nmag = std::sqrt(nx*nx + ny*ny + nz*nz);
+  const double tol = EPSILON*nmag*std::sqrt(nmag);
   for (size_t i = 0; i < polygon.vertices.size(); i++) {
     double t = dot(this->normal, polygon.vertices[i].pos) - this->w;
-    int type = (t < -EPSILON) ? BACK : ((t > EPSILON) ? FRONT : COPLANAR);
+    int type = (t < -tol) ? BACK : ((t > tol) ? FRONT : COPLANAR);
     polygonType |= type;
     types.push_back(type);
   }
-- 
2.43.0


From 116cd58a2159117ca6bb12aac6f7dd7d914986d6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 25/49] fix: hole facets of the Boost polygon conversion had no
 second vertex

---
 src/PLC_Boost_2d.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLC_Boost_2d.hh b/src/PLC_Boost_2d.hh
index 38d35e3..4c15f66 100644
--- a/src/PLC_Boost_2d.hh
+++ b/src/PLC_Boost_2d.hh
@@ -121,7 +121,7 @@ ReducedPLCfromPolygon(const boost::geometry::model::polygon<Point2<RealType>, fa
       result.points.push_back((*itr).x);
       result.points.push_back((*itr).y);
       result.holes[ihole][ii][0] = offset + ii;
-      result.holes[ihole][ii][0] = offset + ((ii+1) % nhfacets);
+      result.holes[ihole][ii][1] = offset + ((ii+1) % nhfacets);
     }
     POLY_ASSERT(ii == nhfacets-1);
     offset += ii;
-- 
2.43.0


From c0de70b36964af9154be1f894b621fc749f55503 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 26/49] fix: 3D CSG operations with an empty result read the
 first polygon of none

---
 src/PLC_CSG_3d.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index 56e853f..92c11ff 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -441,6 +441,7 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
 
   // Find the bounding box for the vertex coordinates.
   const unsigned npolys = polys.size();
+  if (npolys == 0) return ReducedPLC<3, RealType>();  // Nothing left
   POLY_ASSERT(npolys >= 4);
   PointType xmin = polys[0].vertices[0].pos, xmax = xmin;
   for (unsigned i = 0; i != npolys; ++i) {
-- 
2.43.0


From 783924ae01cbab1fd39dbd6a5cabb1eca879ca93 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 27/49] fix: points inserted along the edges of 3D CSG facets
 were sorted into later edges

---
 src/PLC_CSG_3d.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index 92c11ff..ff65634 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -511,6 +511,7 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
       unsigned k = (j + 1) % n;
       const unsigned a = result.facets[i][j], b = result.facets[i][k];
       newfacet.push_back(a);
+      const unsigned first = newfacet.size();  // Where the points between a and b go
       std::set<int> checkNeighbors, usedNeighbors;
       // for (unsigned v = 0; v != result.points.size()/3; ++v) checkNeighbors.insert(b);
       std::set_union(neighbors[a].begin(), neighbors[a].end(), neighbors[b].begin(), neighbors[b].end(), std::inserter(checkNeighbors, checkNeighbors.end()));
@@ -535,7 +536,7 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
         checkNeighbors = std::set<int>();
         std::set_difference(newNeighbors.begin(), newNeighbors.end(), usedNeighbors.begin(), usedNeighbors.end(), std::inserter(checkNeighbors, checkNeighbors.end()));
       }
-      std::sort(newfacet.begin() + j + 1, newfacet.end(), _EdgePointComparator3d<RealType>(a, result.points));
+      std::sort(newfacet.begin() + first, newfacet.end(), _EdgePointComparator3d<RealType>(a, result.points));
     }
     POLY_ASSERT(newfacet.size() >= result.facets[i].size());
     if (newfacet.size() > result.facets[i].size()) result.facets[i] = newfacet;
-- 
2.43.0


From 6a3b32ed02e88dc3b20166bf04c82a7faec21a83 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 28/49] fix: 3D CSG operations on facets with vertices along
 straight edges lost solids

---
 src/PLC_CSG_3d.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index ff65634..ec69e28 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -406,7 +406,11 @@ ReducedPLCtoPolygons(const ReducedPLC<3, RealType>& model) {
       triangle[0] = Vertex<RealType>(PointType(coords[3*k1], coords[3*k1 + 1], coords[3*k1 + 2]));
       triangle[1] = Vertex<RealType>(PointType(coords[3*k2], coords[3*k2 + 1], coords[3*k2 + 2]));
       triangle[2] = Vertex<RealType>(PointType(coords[3*k3], coords[3*k3 + 1], coords[3*k3 + 2]));
-      list.push_back(Polygon<RealType>(triangle));
+      // Facets may have vertices along straight edges: the slivers these make have no plane.
+      const Polygon<RealType> poly(triangle);
+      const double nx = poly.plane.normal.x, ny = poly.plane.normal.y, nz = poly.plane.normal.z;
+      const double l12 = length2(triangle[1].pos - triangle[0].pos), l13 = length2(triangle[2].pos - triangle[0].pos);
+      if (std::sqrt(nx*nx + ny*ny + nz*nz) > Plane<RealType>::EPSILON*std::max(l12, l13)) list.push_back(poly);
     }
   }
   return list;
-- 
2.43.0


From 974bf336660bae0ef2ef707c8ba8e2d6c8094457 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 29/49] fix: boost_clip lost a piece when the point is on two
 of them

---
 src/PLC_Boost_2d.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLC_Boost_2d.hh b/src/PLC_Boost_2d.hh
index 4c15f66..d2ceaaa 100644
--- a/src/PLC_Boost_2d.hh
+++ b/src/PLC_Boost_2d.hh
@@ -248,13 +248,14 @@ ReducedPLC<2, RealType> boost_clip(const ReducedPLC<2, RealType>& a,
     unsigned k = intersections.size();
     for (unsigned j = 0; j != intersections.size(); ++j) {
       inside = boost::geometry::covered_by(p, intersections[j]);
-      if (inside) k = j;
+      if (inside and k == intersections.size()) k = j;
+      else if (inside) orphans.push_back(ReducedPLCfromPolygon(intersections[j]));
       else {
 	onBoundary = false;
 	for (typename RingType::const_iterator itr = intersections[j].outer().begin();
 	     itr != intersections[j].outer().end() - 1;
 	     ++itr)  onBoundary += (p == *itr);
-	if (onBoundary) k = j;
+	if (onBoundary and k == intersections.size()) k = j;
 	else            orphans.push_back(ReducedPLCfromPolygon(intersections[j]));
       }
     }
-- 
2.43.0


From 8d0dc2267b482b1e594ee226ebdf2bfe57737d78 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 30/49] fix: SiloWriter discarded the domains of all but the
 last process sharing a file

---
 src/SiloWriter_2d.cc | 3 ++-
 src/SiloWriter_3d.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 0a1449d..f9a04c9 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -92,7 +92,8 @@ PMPIO_openFile(const char* filename,
   DBfile* file;
   if (iomode == PMPIO_WRITE)
   { 
-    file = DBCreate(filename, 0, DB_LOCAL, 0, driver);
+    // The file was created by the first process of this group.
+    file = DBOpen(filename, driver, DB_APPEND);
     DBMkDir(file, dirname);
     DBSetDir(file, dirname);
   }
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 70ddaed..0c17e68 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -117,7 +117,8 @@ PMPIO_openFile(const char* filename,
   DBfile* file;
   if (iomode == PMPIO_WRITE)
   { 
-    file = DBCreate(filename, 0, DB_LOCAL, 0, driver);
+    // The file was created by the first process of this group.
+    file = DBOpen(filename, driver, DB_APPEND);
     DBMkDir(file, dirname);
     DBSetDir(file, dirname);
   }
-- 
2.43.0


From ee1bcaf29c923b6a80ff4bb8069157b52ced21b3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 31/49] fix: SiloWriter left domains out of the multi-block
 lists when the files do not divide the processes evenly

---
 src/SiloWriter_2d.cc | 29 ++++++++++++++++-------------
 src/SiloWriter_3d.cc | 29 ++++++++++++++++-------------
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index f9a04c9..c0c78ef 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -399,7 +399,8 @@ write(const Tessellation<2, RealType>& mesh,
 
 #ifdef HAVE_MPI
   // Write the multi-block objects to the file if needed.
-  int numChunks = nproc / numFiles;
+  // PMPIO gives one extra process to each of the first nproc % numFiles groups.
+  int numChunks = nproc / numFiles + (groupRank < nproc % numFiles ? 1 : 0);
   if (rankInGroup == 0)
   {
     vector<char*> meshNames(numChunks);
@@ -467,16 +468,18 @@ write(const Tessellation<2, RealType>& mesh,
     // cerr << "Opening MASTER file " << masterFileName << endl;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-    vector<char*> meshNames(numFiles*numChunks);
-    vector<int> meshTypes(numFiles*numChunks, DB_UCDMESH);
+    vector<char*> meshNames(nproc);
+    vector<int> meshTypes(nproc, DB_UCDMESH);
     vector<vector<char*> > varNames(nodeFields.size() +
         edgeFields.size() +
         faceFields.size() +
         cellFields.size());
-    vector<int> varTypes(numFiles*numChunks, DB_UCDVAR);
+    vector<int> varTypes(nproc, DB_UCDVAR);
+    int ichunk = 0;
     for (int i = 0; i < numFiles; ++i)
     {
-      for (int c = 0; c < numChunks; ++c)
+      int numFileChunks = nproc / numFiles + (i < nproc % numFiles ? 1 : 0);
+      for (int c = 0; c < numFileChunks; ++c, ++ichunk)
       {
         // Mesh.
         char meshName[1024];
@@ -484,7 +487,7 @@ write(const Tessellation<2, RealType>& mesh,
           snprintf(meshName, 1024, "%d/%s-%d.silo:/domain_%d/mesh", i, prefix.c_str(), cycle, c);
         else
           snprintf(meshName, 1024, "%d/%s.silo:/domain_%d/mesh", i, prefix.c_str(), c);
-        meshNames[i*numChunks+c] = strDup(meshName);
+        meshNames[ichunk] = strDup(meshName);
 
         // Field data.
         int fieldIndex = 0;
@@ -503,21 +506,21 @@ write(const Tessellation<2, RealType>& mesh,
       DBAddOption(optlist, DBOPT_DTIME, &dtime);
 
     // Write the multimesh and variable data, and close the file.
-    DBPutMultimesh(file, "mesh", numFiles*numChunks, &meshNames[0], 
+    DBPutMultimesh(file, "mesh", nproc, &meshNames[0], 
         &meshTypes[0], optlist);
     int fieldIndex = 0;
-    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
+    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
     DBClose(file);
 
     // Clean up.
     DBFreeOptlist(optlist);
-    for (int i = 0; i < numFiles*numChunks; ++i)
+    for (int i = 0; i < nproc; ++i)
       free(meshNames[i]);
     for (int f = 0; f < varNames.size(); ++f)
-      for (int i = 0; i < numFiles*numChunks; ++i)
+      for (int i = 0; i < nproc; ++i)
         free(varNames[f][i]);
   }
 #else
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 0c17e68..2a6e0cd 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -441,7 +441,8 @@ write(const Tessellation<3, RealType>& mesh,
 
 #ifdef HAVE_MPI
   // Write the multi-block objects to the file if needed.
-  int numChunks = nproc / numFiles;
+  // PMPIO gives one extra process to each of the first nproc % numFiles groups.
+  int numChunks = nproc / numFiles + (groupRank < nproc % numFiles ? 1 : 0);
   if (rankInGroup == 0)
   {
     vector<char*> meshNames(numChunks);
@@ -508,16 +509,18 @@ write(const Tessellation<3, RealType>& mesh,
     int driver = DB_HDF5;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-    vector<char*> meshNames(numFiles*numChunks);
-    vector<int> meshTypes(numFiles*numChunks, DB_UCDMESH);
+    vector<char*> meshNames(nproc);
+    vector<int> meshTypes(nproc, DB_UCDMESH);
     vector<vector<char*> > varNames(nodeFields.size() +
                                     edgeFields.size() +
                                     faceFields.size() +
                                     cellFields.size());
-    vector<int> varTypes(numFiles*numChunks, DB_UCDVAR);
+    vector<int> varTypes(nproc, DB_UCDVAR);
+    int ichunk = 0;
     for (int i = 0; i < numFiles; ++i)
     {
-      for (int c = 0; c < numChunks; ++c)
+      int numFileChunks = nproc / numFiles + (i < nproc % numFiles ? 1 : 0);
+      for (int c = 0; c < numFileChunks; ++c, ++ichunk)
       {
         // Mesh.
         char meshName[1024];
@@ -525,7 +528,7 @@ write(const Tessellation<3, RealType>& mesh,
           snprintf(meshName, 1024, "%d/%s-%d.silo:/domain_%d/mesh", i, prefix.c_str(), cycle, c);
         else
           snprintf(meshName, 1024, "%d/%s.silo:/domain_%d/mesh", i, prefix.c_str(), c);
-        meshNames[i*numChunks+c] = strDup(meshName);
+        meshNames[ichunk] = strDup(meshName);
 
         // Field data.
         int fieldIndex = 0;
@@ -544,21 +547,21 @@ write(const Tessellation<3, RealType>& mesh,
       DBAddOption(optlist, DBOPT_DTIME, &dtime);
 
     // Write the multimesh and variable data, and close the file.
-    DBPutMultimesh(file, "mesh", numFiles*numChunks, &meshNames[0], 
+    DBPutMultimesh(file, "mesh", nproc, &meshNames[0], 
                    &meshTypes[0], optlist);
     int fieldIndex = 0;
-    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
+    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
     DBClose(file);
 
     // Clean up.
     DBFreeOptlist(optlist);
-    for (int i = 0; i < numFiles*numChunks; ++i)
+    for (int i = 0; i < nproc; ++i)
       free(meshNames[i]);
     for (int f = 0; f < varNames.size(); ++f)
-      for (int i = 0; i < numFiles*numChunks; ++i)
+      for (int i = 0; i < nproc; ++i)
         free(varNames[f][i]);
   }
 #else
-- 
2.43.0


From b97a7591e0a59ce525353820ded744f74124fe50 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 32/49] fix: 3D SiloWriter put the master file outside of the
 requested directory

---
 src/SiloWriter_3d.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 2a6e0cd..8de452e 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -503,9 +503,9 @@ write(const Tessellation<3, RealType>& mesh,
   {
     char masterFileName[1024];
     if (cycle >= 0)
-      snprintf(masterFileName, 1024, "%s-%d/%s-%d.silo", prefix.c_str(), nproc, prefix.c_str(), cycle);
+      snprintf(masterFileName, 1024, "%s/%s-%d.silo", masterDirName.c_str(), prefix.c_str(), cycle);
     else
-      snprintf(masterFileName, 1024, "%s-%d/%s.silo", prefix.c_str(), nproc, prefix.c_str());
+      snprintf(masterFileName, 1024, "%s/%s.silo", masterDirName.c_str(), prefix.c_str());
     int driver = DB_HDF5;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-- 
2.43.0


From 3285bc06fb35e3e0c2bd312cd7d57d4644f80f93 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 33/49] fix: SiloWriter wrote wrong cells of faces and wrong
 lengths of the connectivity arrays

---
 src/SiloWriter_2d.cc | 6 +++---
 src/SiloWriter_3d.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index c0c78ef..6e951b9 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -315,13 +315,13 @@ write(const Tessellation<2, RealType>& mesh,
   }
   for (int f = 0; f < mesh.faceCells.size(); ++f)
   {
-    conn.push_back(mesh.faceCells[f][0]);
-    conn.push_back(mesh.faceCells[f][0]);
+    conn.push_back(mesh.faceCells[f].front());
+    conn.push_back(mesh.faceCells[f].back());
   }
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
   elemnames[2] = strDup("facecells");
-  elemlengths[2] = conn.size() - 2*mesh.faces.size();
+  elemlengths[2] = 2*mesh.faceCells.size();
   elemnames[1] = strDup("cellfaces");
   elemlengths[1] = conn.size() - elemlengths[2] - elemlengths[0];
   DBPutCompoundarray(file, "conn", elemnames, elemlengths, 3, 
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 8de452e..d683f8d 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -352,13 +352,13 @@ write(const Tessellation<3, RealType>& mesh,
   }
   for (int f = 0; f < mesh.faceCells.size(); ++f)
   {
-    conn.push_back(mesh.faceCells[f][0]);
-    conn.push_back(mesh.faceCells[f][0]);
+    conn.push_back(mesh.faceCells[f].front());
+    conn.push_back(mesh.faceCells[f].back());
   }
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
   elemnames[2] = strDup("facecells");
-  elemlengths[2] = conn.size() - 2*mesh.faces.size();
+  elemlengths[2] = 2*mesh.faceCells.size();
   elemnames[1] = strDup("cellfaces");
   elemlengths[1] = conn.size() - elemlengths[2] - elemlengths[0];
   DBPutCompoundarray(file, "conn", elemnames, elemlengths, 3, 
-- 
2.43.0


From 31b6faf44a565164898dc3aed55c1f37da2edf76 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 34/49] fix: Silo output did not name the tags

---
 src/SiloUtils.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SiloUtils.cc b/src/SiloUtils.cc
index 97e51b4..e77a4f6 100644
--- a/src/SiloUtils.cc
+++ b/src/SiloUtils.cc
@@ -37,8 +37,7 @@ writeTagsToFile(const map<string, vector<int>*>& tags,
   {
     vector<int>& tag = *iter->second;
     elemLengths.push_back(static_cast<int>(tag.size()));
-    string tagName;
-    elemNames.push_back(strDup(tagName.c_str()));
+    elemNames.push_back(strDup(iter->first.c_str()));
     for (size_t i = 0; i < tag.size(); ++i)
       tagData.push_back(tag[i]);
   }
-- 
2.43.0


From 417a5dfdf7fa814353b7896518e936e992d40177 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 35/49] fix: polytope_tessellation_clear left freed arrays in
 the tessellation, which were freed again

---
 polytope_c/polytope_tessellation.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 2414762..8960553 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -37,6 +37,7 @@ polytope_tessellation_t* polytope_tessellation_new(int dimension)
   tess->num_boundary_faces = 0;
   tess->boundary_nodes = NULL;
   tess->num_boundary_nodes = 0;
+  tess->face_cells = NULL;
 
   return tess;
 }
@@ -78,14 +79,19 @@ void polytope_tessellation_clear(polytope_tessellation_t* tessellation)
   if (tessellation->boundary_nodes != NULL)
   {
     free(tessellation->boundary_nodes);
+    tessellation->num_boundary_nodes = 0;
+    tessellation->boundary_nodes = NULL;
   }
   if (tessellation->boundary_faces != NULL)
   {
     free(tessellation->boundary_faces);
+    tessellation->num_boundary_faces = 0;
+    tessellation->boundary_faces = NULL;
   }
   if (tessellation->face_cells != NULL)
   {
     free(tessellation->face_cells);
+    tessellation->face_cells = NULL;
   }
   if (tessellation->neighbor_domains != NULL)
   {
-- 
2.43.0


From 5240ba5255123f852c994be928acc1366cec242c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 36/49] fix: C tessellations leaked their arrays when
 tessellated into again

---
 polytope_c/polytope_tessellator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polytope_c/polytope_tessellator.cc b/polytope_c/polytope_tessellator.cc
index df67df5..9da2aa9 100644
--- a/polytope_c/polytope_tessellator.cc
+++ b/polytope_c/polytope_tessellator.cc
@@ -21,6 +21,9 @@ void fill_plc(polytope_plc_t* c_plc,
 template <int Dimension>
 void fill_tessellation(const Tessellation<Dimension, polytope_real_t>& t, polytope_tessellation_t* tess)
 {
+  // Release anything left from an earlier tessellation.
+  polytope_tessellation_clear(tess);
+
   // Copy node coordinates.
   tess->num_nodes = t.nodes.size()/Dimension;
   tess->nodes = (polytope_real_t*)malloc(sizeof(polytope_real_t) * Dimension * tess->num_nodes);
-- 
2.43.0


From 733c4d83a9a02d9523f7de15fffa19f515bd8021 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 37/49] fix: polytope_tessellator_name returned a pointer into
 a destroyed string

---
 polytope_c/polytope_tessellator.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/polytope_c/polytope_tessellator.cc b/polytope_c/polytope_tessellator.cc
index 9da2aa9..b14139e 100644
--- a/polytope_c/polytope_tessellator.cc
+++ b/polytope_c/polytope_tessellator.cc
@@ -1,3 +1,6 @@
+#include <stdlib.h>
+#include <string.h>
+
 #include "polytope_c.h"
 #include "polytope.hh"
 #include "BoostTessellator.hh"
@@ -220,6 +223,7 @@ struct polytope_tessellator_t
 {
   Tessellator<2, polytope_real_t>* tess2;
   Tessellator<3, polytope_real_t>* tess3;
+  char* name;
 };
 //------------------------------------------------------------------------
 
@@ -230,6 +234,7 @@ void polytope_tessellator_free(polytope_tessellator_t* tessellator)
     delete tessellator->tess2;
   else
     delete tessellator->tess3;
+  free(tessellator->name);
   free(tessellator);
 }
 //------------------------------------------------------------------------
@@ -326,10 +331,15 @@ bool polytope_tessellator_handles_plcs(polytope_tessellator_t* tessellator)
 //------------------------------------------------------------------------
 const char* polytope_tessellator_name(polytope_tessellator_t* tessellator)
 {
-  if (tessellator->tess2 != NULL)
-    return tessellator->tess2->name().c_str();
-  else
-    return tessellator->tess3->name().c_str();
+  // Tessellator::name() returns a temporary, so we hold on to a copy.
+  if (tessellator->name == NULL)
+  {
+    string name = (tessellator->tess2 != NULL) ? tessellator->tess2->name()
+                                               : tessellator->tess3->name();
+    tessellator->name = (char*)malloc(sizeof(char) * (name.size() + 1));
+    strcpy(tessellator->name, name.c_str());
+  }
+  return tessellator->name;
 }
 //------------------------------------------------------------------------
 
@@ -360,6 +370,7 @@ polytope_tessellator_t* boost_tessellator_new()
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
   t->tess2 = new BoostTessellator<polytope_real_t>();
   t->tess3 = NULL;
+  t->name = NULL;
   return t;
 }
 #endif
@@ -372,6 +383,7 @@ polytope_tessellator_t* triangle_tessellator_new()
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
   t->tess2 = new TriangleTessellator<polytope_real_t>();
   t->tess3 = NULL;
+  t->name = NULL;
   return t;
 }
 #endif
@@ -384,6 +396,7 @@ polytope_tessellator_t* tetgen_tessellator_new()
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
   t->tess2 = NULL;
   t->tess3 = new TetgenTessellator();
+  t->name = NULL;
   return t;
 }
 #endif
-- 
2.43.0


From c32426457f80dc55b52b8ac1bea0492c1dfc96f1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 38/49] fix: polytope_plc_snprintf wrote nothing and
 polytope_plc_fprintf an uninitialized string

---
 polytope_c/polytope_plc.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/polytope_c/polytope_plc.cc b/polytope_c/polytope_plc.cc
index 75d363a..3df8a02 100644
--- a/polytope_c/polytope_plc.cc
+++ b/polytope_c/polytope_plc.cc
@@ -1,3 +1,5 @@
+#include <sstream>
+
 #include "polytope_c.h"
 #include "polytope.hh"
 
@@ -191,7 +193,13 @@ bool polytope_plc_valid(polytope_plc_t* plc)
 //------------------------------------------------------------------------
 void polytope_plc_snprintf(polytope_plc_t* plc, char* str, int n)
 {
-  // FIXME
+  POLY_ASSERT(plc != NULL);
+  ostringstream s;
+  if (plc->plc2 != NULL)
+    s << *plc->plc2;
+  else
+    s << *plc->plc3;
+  snprintf(str, n, "%s", s.str().c_str());
 }
 //------------------------------------------------------------------------
 
@@ -199,14 +207,12 @@ void polytope_plc_snprintf(polytope_plc_t* plc, char* str, int n)
 void polytope_plc_fprintf(polytope_plc_t* plc, FILE* stream)
 {
   POLY_ASSERT(plc != NULL);
-  // Let's assume, for the moment, that the output of our PLC scales with the 
-  // number of facets.
-  int n = (plc->plc2 != NULL) ? 128 * plc->plc2->facets.size()
-                               : 128 * plc->plc3->facets.size();
-  char* str = (char*)malloc(n * sizeof(char));
-  polytope_plc_snprintf(plc, str, n);
-  fprintf(stream, "%s", str);
-  free(str);
+  ostringstream s;
+  if (plc->plc2 != NULL)
+    s << *plc->plc2;
+  else
+    s << *plc->plc3;
+  fprintf(stream, "%s", s.str().c_str());
 }
 //------------------------------------------------------------------------
 
-- 
2.43.0


From ca84b4f5fb6f38baade3aa2d9c9148e05d2d05fc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 39/49] fix: polytope_tessellation_snprintf and _fprintf wrote
 to an uninitialized string of the wrong size

---
 polytope_c/polytope_tessellation.cc | 48 ++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 8960553..70f1c47 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -1,5 +1,6 @@
 #include <stdlib.h>
 #include <string.h>
+#include <sstream>
 
 #include "polytope_c.h"
 #include "Tessellation.hh"
@@ -7,6 +8,40 @@
 using namespace std;
 using namespace polytope;
 
+namespace polytope
+{
+
+// Creates a C++ tessellation from a C one. This template is defined in 
+// polytope_tessellator.cc.
+template <int Dimension>
+void fill_tessellation(polytope_tessellation_t* tess, Tessellation<Dimension, polytope_real_t>& t);
+
+}
+
+namespace
+{
+
+// The human-readable representation of the given tessellation.
+string tessellation_string(polytope_tessellation_t* tessellation)
+{
+  ostringstream s;
+  if (tessellation->dimension == 2)
+  {
+    Tessellation<2, polytope_real_t> t;
+    fill_tessellation(tessellation, t);
+    s << t;
+  }
+  else
+  {
+    Tessellation<3, polytope_real_t> t;
+    fill_tessellation(tessellation, t);
+    s << t;
+  }
+  return s.str();
+}
+
+}
+
 extern "C"
 {
 
@@ -134,10 +169,7 @@ void polytope_tessellation_clear(polytope_tessellation_t* tessellation)
 void polytope_tessellation_snprintf(polytope_tessellation_t* tessellation, char* str, int n)
 {
   POLY_ASSERT(tessellation != NULL);
-
-  char fmt[128];
-  snprintf(fmt, 128, "Tessellation (%d)", static_cast<int>(sizeof(str) - strlen(str) - 1));
-  strncat(str, fmt, sizeof(str) - strlen(str));
+  snprintf(str, n, "%s", tessellation_string(tessellation).c_str());
 }
 //------------------------------------------------------------------------
 
@@ -145,13 +177,7 @@ void polytope_tessellation_snprintf(polytope_tessellation_t* tessellation, char*
 void polytope_tessellation_fprintf(polytope_tessellation_t* tessellation, FILE* stream)
 {
   POLY_ASSERT(tessellation != NULL);
-  // Let's assume, for the moment, that the output of our tessellation scales with the
-  // number of cells.
-  int n = 512 * tessellation->num_cells;
-  char* str = (char*)malloc(n * sizeof(char));
-  polytope_tessellation_snprintf(tessellation, str, n);
-  fprintf(stream, "%s", str);
-  free(str);
+  fprintf(stream, "%s", tessellation_string(tessellation).c_str());
 }
 //------------------------------------------------------------------------
 
-- 
2.43.0


From 26974f3c39dcacce1be8d3ee41edc9555f617dad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 40/49] fix: IntPointMap::have claimed points whose coordinates
 are those of different points

---
 src/IntPointMap.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/IntPointMap.hh b/src/IntPointMap.hh
index edec07c..32b9332 100644
--- a/src/IntPointMap.hh
+++ b/src/IntPointMap.hh
@@ -162,6 +162,7 @@ struct IntPointMap {
           // If the intersection is empty, we have a new distinct point.
           return false;
         }
+        matchingIDs = intersection;
       }
     }
 
-- 
2.43.0


From 18654c7945d69f08e6d312aca8da38b2684e7ce9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 41/49] fix: computeSortedFaceEdges left the first edge of a
 chain in the wrong direction

---
 src/polytope_internal.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polytope_internal.hh b/src/polytope_internal.hh
index 30a6dc3..30a1884 100644
--- a/src/polytope_internal.hh
+++ b/src/polytope_internal.hh
@@ -246,7 +246,13 @@ computeSortedFaceEdges(std::vector<std::pair<int, int> >& edges,
   // // BLAGO!
 
   // Set the orientation for the ordered edges.
-  lastNode = (edges[result[0]].first == edges[result[1]].first ? edges[result[0]].first : edges[result[0]].second);
+  const EdgeHash e0 = edges[result[0]], e1 = edges[result[1]];
+  if (e0.second == e1.first or e0.second == e1.second) {
+    lastNode = e0.second;
+  } else {
+    lastNode = e0.first;
+    result[0] = ~result[0];
+  }
   for (i = 1; i != nedges; ++i) {
     POLY_ASSERT(edges[result[i]].first == lastNode or edges[result[i]].second == lastNode);
     if (edges[result[i]].first == lastNode) {
-- 
2.43.0


From aa5603ae9aab61776942af1b8efe6a01d2b8d11f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 42/49] fix: 3D Morton keys mixed up the bits of the
 coordinates

---
 src/mortonOrderIndices.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mortonOrderIndices.hh b/src/mortonOrderIndices.hh
index 4d2c520..5f72450 100644
--- a/src/mortonOrderIndices.hh
+++ b/src/mortonOrderIndices.hh
@@ -60,10 +60,10 @@ hashPosition(const polytope::Point3<polytope::KeyTraits::Key>& xoff) {
   // Interleave the bits.
   Key result = polytope::KeyTraits::zero;
   Key mask = polytope::KeyTraits::one;
-  for (size_t i = 0; i != polytope::KeyTraits::numbits1d; ++i, mask <<= 1) {
-    result += (((xoff.x & mask) << i) +
-               ((xoff.y & mask) << (i + 1)) +
-               ((xoff.z & mask) << (i + 2)));
+  for (size_t i = 0; 3*i + 2 < polytope::KeyTraits::numbits; ++i, mask <<= 1) {
+    result += (((xoff.x & mask) << (2*i)) +
+               ((xoff.y & mask) << (2*i + 1)) +
+               ((xoff.z & mask) << (2*i + 2)));
   }
 
   // That's it.
-- 
2.43.0


From 65274d110ba6b1080db284d756107e934c4e1b5b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 43/49] fix: reducing a PLC left out the points of its holes
 and did not renumber them

---
 src/ReducedPLC.hh | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ReducedPLC.hh b/src/ReducedPLC.hh
index f2082d4..3bf7753 100644
--- a/src/ReducedPLC.hh
+++ b/src/ReducedPLC.hh
@@ -36,10 +36,15 @@ public:
     points()
   {
     std::set<int> indices;
-    int i;
+    int i, k;
     for (i = 0; i != plc.facets.size(); ++i) {
       std::copy(plc.facets[i].begin(), plc.facets[i].end(), std::inserter(indices, indices.end()));
     }
+    for (k = 0; k != plc.holes.size(); ++k) {
+      for (i = 0; i != plc.holes[k].size(); ++i) {
+        std::copy(plc.holes[k][i].begin(), plc.holes[k][i].end(), std::inserter(indices, indices.end()));
+      }
+    }
     std::map<int, int> old2new;
     int j = 0;
     for (typename std::set<int>::const_iterator itr = indices.begin();
@@ -54,6 +59,13 @@ public:
         this->facets[i][j] = old2new[this->facets[i][j]];
       }
     }
+    for (k = 0; k != this->holes.size(); ++k) {
+      for (i = 0; i != this->holes[k].size(); ++i) {
+        for (j = 0; j != this->holes[k][i].size(); ++j) {
+          this->holes[k][i][j] = old2new[this->holes[k][i][j]];
+        }
+      }
+    }
   }
 
   //! output operator.
-- 
2.43.0


From 2729e4157098aa27ed427a9b724dddb427b1446c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 44/49] fix: writePLCtoOFF did not count the facets of holes

---
 src/polytope_write_OOGL.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polytope_write_OOGL.hh b/src/polytope_write_OOGL.hh
index 19387ab..7678065 100644
--- a/src/polytope_write_OOGL.hh
+++ b/src/polytope_write_OOGL.hh
@@ -31,7 +31,9 @@ void writePLCtoOFF(const PLC<2, RealType>& plc,
   outfile.open(filename.c_str(), std::ios::out);
 
   // Count the numbers of elements we have.
-  const unsigned npoints = coords.size()/2, nfacets = plc.facets.size();
+  const unsigned npoints = coords.size()/2;
+  unsigned nfacets = plc.facets.size();
+  for (unsigned ihole = 0; ihole != plc.holes.size(); ++ihole) nfacets += plc.holes[ihole].size();
   std::set<EdgeHash> edges;
   for (unsigned i = 0; i != plc.facets.size(); ++i) {
     POLY_ASSERT(plc.facets[i].size() == 2);
@@ -100,7 +102,9 @@ void writePLCtoOFF(const PLC<3, RealType>& plc,
   outfile.open(filename.c_str(), std::ios::out);
 
   // Count the numbers of elements we have.
-  const unsigned npoints = coords.size()/3, nfacets = plc.facets.size();
+  const unsigned npoints = coords.size()/3;
+  unsigned nfacets = plc.facets.size();
+  for (unsigned ihole = 0; ihole != plc.holes.size(); ++ihole) nfacets += plc.holes[ihole].size();
   std::set<EdgeHash> edges;
   // for (unsigned i = 0; i != plc.facets.size(); ++i) {
   //   const unsigned n = plc.facets[i].size();
-- 
2.43.0


From 191387f6f3c206996b7f57fef90bacc59c84ddae Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 45/49] fix: convexHull_3d failed in small or large units and
 with repeated points

---
 src/convexHull_3d.hh | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/convexHull_3d.hh b/src/convexHull_3d.hh
index 9114d7a..1437a3c 100644
--- a/src/convexHull_3d.hh
+++ b/src/convexHull_3d.hh
@@ -305,11 +305,16 @@ convexHull_3d(const std::vector<RealType>& points,
   geometry::uniquePoints<3, RealType>(points, xmin, xmax, dx, upoints, pointMap);
   const unsigned nunique = upoints.size()/3;
   POLY_ASSERT(nunique >= 4);
+  std::vector<unsigned> originalIndex(nunique);
+  for (unsigned i = pointMap.size(); i != 0; --i) originalIndex[pointMap[i - 1]] = i - 1;
+
+  // Work in units of the bounding box, so our tolerances are relative.
+  const RealType scale = std::max(xmax[0] - xmin[0], std::max(xmax[1] - xmin[1], xmax[2] - xmin[2]));
   std::vector<PointType> ps(nunique);
   for (unsigned i = 0; i != nunique; ++i) {
-    ps[i].x = upoints[3*i];
-    ps[i].y = upoints[3*i+1];
-    ps[i].z = upoints[3*i+2];
+    ps[i].x = (upoints[3*i]   - xmin[0])/scale;
+    ps[i].y = (upoints[3*i+1] - xmin[1])/scale;
+    ps[i].z = (upoints[3*i+2] - xmin[2])/scale;
     ps[i].index = i;
   }
 
@@ -424,9 +429,9 @@ convexHull_3d(const std::vector<RealType>& points,
        facetItr != workingFacets.end();
        ++facetItr) {
     plc.facets.push_back(std::vector<int>());
-    plc.facets.back().push_back(pointMap[facetItr->inode]);
-    plc.facets.back().push_back(pointMap[facetItr->jnode]);
-    plc.facets.back().push_back(pointMap[facetItr->knode]);
+    plc.facets.back().push_back(originalIndex[facetItr->inode]);
+    plc.facets.back().push_back(originalIndex[facetItr->jnode]);
+    plc.facets.back().push_back(originalIndex[facetItr->knode]);
   }
   return plc;
 }
-- 
2.43.0


From 21cf5f9fa8472c033f936d66a698cb1eb1abdb7f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 46/49] fix: simplifyPLCfacets compared directions with a
 tolerance that depends on the units

---
 src/simplifyPLCfacets.hh | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index 3fe1459..197fb9b 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -32,6 +32,9 @@ simplifyPLCfacets(const PLC<2, RealType>& plc,
   typedef Point2<RealType> PointType;
   typedef std::pair<int, int> EdgeHash;
   ReducedPLC<2, RealType> result;
+
+  // The tolerance relative to the size of the box, for comparing directions.
+  const RealType reltol = tol/std::max(xmax[0] - xmin[0], xmax[1] - xmin[1]);
   
   // Reduce to the set of unique points.
   std::vector<unsigned> old2new;
@@ -82,7 +85,7 @@ simplifyPLCfacets(const PLC<2, RealType>& plc,
          geometry::collinear<2, RealType>(&result.points[2*orderedEdges[istart].first],
                                           &result.points[2*orderedEdges[istart].second],
                                           &result.points[2*orderedEdges[(istart + noldfacets - 1) % noldfacets].first],
-                                          tol)) ++istart;
+                                          reltol)) ++istart;
   POLY_ASSERT(istart != noldfacets);
 
   // Now walk the edges and build up the new result, removing any sequential 
@@ -93,7 +96,7 @@ simplifyPLCfacets(const PLC<2, RealType>& plc,
     while (geometry::collinear<2, RealType>(&result.points[2*orderedEdges[iedge1].first],
                                             &result.points[2*orderedEdges[iedge1].second],
                                             &result.points[2*orderedEdges[(iedge1 + ncoll + 1) % noldfacets].second],
-                                            tol)) ++ncoll;
+                                            reltol)) ++ncoll;
     int iedge2 = (iedge1 + ncoll) % noldfacets;
     result.facets.push_back(std::vector<int>());
     result.facets.back().push_back(orderedEdges[iedge1].first);
@@ -147,6 +150,9 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
   typedef std::pair<int, int> EdgeHash;
   typedef geometry::Hasher<2, RealType> HasherType2d;
   ReducedPLC<3, RealType> result;
+
+  // The tolerance relative to the size of the box, for comparing directions.
+  const RealType reltol = tol/std::max(xmax[0] - xmin[0], std::max(xmax[1] - xmin[1], xmax[2] - xmin[2]));
   
   // Reduce to the set of unique points.
   std::vector<unsigned> old2new;
@@ -190,7 +196,7 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
     } else {
       k2 = plc.facets[i][j++];
       while (j < plc.facets[i].size() and 
-             geometry::collinear<3, RealType>(&points[3*k1], &points[3*k2], &points[3*plc.facets[i][j]], tol)) ++j;
+             geometry::collinear<3, RealType>(&points[3*k1], &points[3*k2], &points[3*plc.facets[i][j]], reltol)) ++j;
       if (j == plc.facets[i].size()) {
         facetUsed[i] = 1;
       } else {
@@ -229,7 +235,7 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
              otherFacetItr != nodeFacets[*nodeItr].end();
              ++otherFacetItr) {
           if ((*otherFacetItr != i) and (facetUsed[*otherFacetItr] == 0) and
-              (std::abs(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[*otherFacetItr].x) - facetNormalMag[i]*facetNormalMag[*otherFacetItr]) < tol)) {
+              (std::abs(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[*otherFacetItr].x) - facetNormalMag[i]*facetNormalMag[*otherFacetItr]) < reltol*facetNormalMag[i]*facetNormalMag[*otherFacetItr])) {
             // std::cerr << " " << *otherFacetItr;
             facetUsed[*otherFacetItr] = 1;
             oldfacets.insert(*otherFacetItr);
@@ -294,7 +300,7 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
         khat *= geometry::sgn(korder);
         const double jmag = sqrt(double(geometry::dot<3, RealType>(&jhat.x, &jhat.x))), 
                      kmag = sqrt(double(geometry::dot<3, RealType>(&khat.x, &khat.x)));
-        if (jmag*kmag - std::abs(geometry::dot<3, RealType>(&jhat.x, &khat.x)) > tol) {
+        if (jmag*kmag - std::abs(geometry::dot<3, RealType>(&jhat.x, &khat.x)) > reltol*jmag*kmag) {
           newfacet.push_back(korder < 0 ? ek.second : ek.first);
         }
       }
-- 
2.43.0


From 2813ce3f4f29b69f7b44d0e9630759c924e3b9eb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 47/49] fix: simplifyPLCfacets turned facets around that are
 not convex or start with collinear points

---
 src/simplifyPLCfacets.hh | 50 ++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index 197fb9b..84fdfa4 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -200,15 +200,21 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       if (j == plc.facets[i].size()) {
         facetUsed[i] = 1;
       } else {
-        k3 = plc.facets[i][j];
-        RealType a[3] = {points[3*k3  ] - points[3*k1  ],
-                         points[3*k3+1] - points[3*k1+1],
-                         points[3*k3+2] - points[3*k1+2]},
-                 b[3] = {points[3*k2  ] - points[3*k1  ],
-                         points[3*k2+1] - points[3*k1+1],
-                         points[3*k2+2] - points[3*k1+2]};
-          geometry::cross<3, RealType>(b, a, &facetNormals[i].x);
-          facetNormalMag[i] = sqrt(double(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[i].x)));
+        // Sum over all edges of the facet, since it may not be convex.
+        for (j = 1; j + 1 < plc.facets[i].size(); ++j) {
+          k2 = plc.facets[i][j];
+          k3 = plc.facets[i][j + 1];
+          RealType a[3] = {points[3*k3  ] - points[3*k1  ],
+                           points[3*k3+1] - points[3*k1+1],
+                           points[3*k3+2] - points[3*k1+2]},
+                   b[3] = {points[3*k2  ] - points[3*k1  ],
+                           points[3*k2+1] - points[3*k1+1],
+                           points[3*k2+2] - points[3*k1+2]};
+          PointType normal;
+          geometry::cross<3, RealType>(b, a, &normal.x);
+          facetNormals[i] += normal;
+        }
+        facetNormalMag[i] = sqrt(double(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[i].x)));
       }
     }
   }
@@ -307,20 +313,18 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       POLY_ASSERT(newfacet.size() >= 3);
 
       // Do we need to reverse the ordering of this facet?
-      const PointType a0(points[3*plc.facets[i][0]], points[3*plc.facets[i][0]+1], points[3*plc.facets[i][0]+2]), 
-                      b0(points[3*plc.facets[i][1]], points[3*plc.facets[i][1]+1], points[3*plc.facets[i][1]+2]), 
-                      c0(points[3*plc.facets[i][2]], points[3*plc.facets[i][2]+1], points[3*plc.facets[i][2]+2]), 
-                      a1(result.points[3*newfacet[0]], result.points[3*newfacet[0]+1], result.points[3*newfacet[0]+2]), 
-                      b1(result.points[3*newfacet[1]], result.points[3*newfacet[1]+1], result.points[3*newfacet[1]+2]), 
-                      c1(result.points[3*newfacet[2]], result.points[3*newfacet[2]+1], result.points[3*newfacet[2]+2]),
-                      ab0 = b0 - a0,
-                      ac0 = c0 - a0,
-                      ab1 = b1 - a1,
-                      ac1 = c1 - a1;
-      PointType oldnorm, newnorm;
-      geometry::cross<3, RealType>(&ab0.x, &ac0.x, &oldnorm.x);
-      geometry::cross<3, RealType>(&ab1.x, &ac1.x, &newnorm.x);
-      if (geometry::dot<3, RealType>(&oldnorm.x, &newnorm.x) < 0) std::reverse(newfacet.begin(), newfacet.end());
+      const PointType a1(result.points[3*newfacet[0]], result.points[3*newfacet[0]+1], result.points[3*newfacet[0]+2]);
+      PointType newnorm;
+      for (unsigned j = 1; j + 1 < newfacet.size(); ++j) {
+        const PointType b1(result.points[3*newfacet[j]], result.points[3*newfacet[j]+1], result.points[3*newfacet[j]+2]), 
+                        c1(result.points[3*newfacet[j+1]], result.points[3*newfacet[j+1]+1], result.points[3*newfacet[j+1]+2]),
+                        ab1 = b1 - a1,
+                        ac1 = c1 - a1;
+        PointType normal;
+        geometry::cross<3, RealType>(&ab1.x, &ac1.x, &normal.x);
+        newnorm += normal;
+      }
+      if (geometry::dot<3, RealType>(&facetNormals[i].x, &newnorm.x) < 0) std::reverse(newfacet.begin(), newfacet.end());
     }
   }
   POLY_ASSERT(result.facets.size() >= 4);
-- 
2.43.0


From 3e0db6ea7a12e3e62295e2b3d805917bb7777aff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 48/49] fix: DistributedTessellator ignored the holes of the
 boundary when it looked for neighbor domains

---
 src/DistributedTessellator.cc | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index b0e024c..f5359a3 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -993,24 +993,8 @@ computeDomainNeighbors(const vector<RealType>& points,
     mSerialTessellator->tessellate(allVisibleGenerators, mLow, mHigh, visibleMesh);
     break;
   case plc:
-    ReducedPLC<Dimension, RealType> tmpPLC;
-    vector<RealType> tmpPLCpoints;
-    tmpPLC.facets = mPLCptr->facets;
-    std::map<int, int> pointMap;
-    for (int ifacet = 0; ifacet < mPLCptr->facets.size(); ++ifacet) {
-      for (int k = 0; k < mPLCptr->facets[ifacet].size(); ++k) {
-        const int ipt = mPLCptr->facets[ifacet][k];
-        const int old_size = pointMap.size();
-        const int nipt = internal::addKeyToMap(ipt, pointMap);
-        tmpPLC.facets[ifacet][k] = nipt;
-        if (old_size != pointMap.size()) {
-          for (int j = 0; j < Dimension; ++j) {
-            tmpPLCpoints.push_back((*mPLCpointsPtr)[Dimension*ipt+j]);
-          }
-        }
-      }
-    }
-    mSerialTessellator->tessellate(allVisibleGenerators, tmpPLCpoints, tmpPLC, visibleMesh);
+    const ReducedPLC<Dimension, RealType> tmpPLC(*mPLCptr, *mPLCpointsPtr);
+    mSerialTessellator->tessellate(allVisibleGenerators, tmpPLC.points, tmpPLC, visibleMesh);
     break;
   }
 
-- 
2.43.0


From c218a541cc5cc819ddd97e3d33336b9e94f89417 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 49/49] fix: simplifyPLCfacets missed coplanar facets reached
 through points with lower indices

---
 src/simplifyPLCfacets.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index 84fdfa4..550c9a0 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -227,18 +227,18 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       // Build the set of old facets that will contribute to this new one
       // by checking neighbor facets (by node connectivity) to see if they're
       // coplanar.
-      std::set<unsigned> oldfacets, nodes2check;
+      std::set<unsigned> oldfacets;
+      std::vector<unsigned> nodes2check;
       std::map<unsigned, unsigned> nodeFacetUsedCount;
       oldfacets.insert(i);
       // std::cerr << " gluing together old facets : " << i;
       for (std::vector<int>::const_iterator nodeItr = plc.facets[i].begin();
            nodeItr != plc.facets[i].end();
-           ++nodeItr) nodes2check.insert(old2new[*nodeItr]);
-      for (std::set<unsigned>::iterator nodeItr = nodes2check.begin();
-           nodeItr != nodes2check.end();
-           ++nodeItr) {
-        for (std::vector<unsigned>::const_iterator otherFacetItr = nodeFacets[*nodeItr].begin();
-             otherFacetItr != nodeFacets[*nodeItr].end();
+           ++nodeItr) nodes2check.push_back(old2new[*nodeItr]);
+      for (unsigned inode = 0; inode != nodes2check.size(); ++inode) {
+        const std::vector<unsigned>& otherFacets = nodeFacets[nodes2check[inode]];
+        for (std::vector<unsigned>::const_iterator otherFacetItr = otherFacets.begin();
+             otherFacetItr != otherFacets.end();
              ++otherFacetItr) {
           if ((*otherFacetItr != i) and (facetUsed[*otherFacetItr] == 0) and
               (std::abs(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[*otherFacetItr].x) - facetNormalMag[i]*facetNormalMag[*otherFacetItr]) < reltol*facetNormalMag[i]*facetNormalMag[*otherFacetItr])) {
@@ -247,7 +247,7 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
             oldfacets.insert(*otherFacetItr);
             for (std::vector<int>::const_iterator otherNodeItr = plc.facets[*otherFacetItr].begin();
                  otherNodeItr != plc.facets[*otherFacetItr].end();
-                 ++otherNodeItr) nodes2check.insert(old2new[*otherNodeItr]);
+                 ++otherNodeItr) nodes2check.push_back(old2new[*otherNodeItr]);
           }
         }
       }
-- 
2.43.0

