From ec8fdd2f031378ccb5093278d4f547ac1c3d9c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 01/29] fix: SgConserveInterp2D::computeWeights discards the
 weights of the previous computation

std::map::insert does not overwrite, so recomputing after changing a grid kept
the old weights and left the cursor on them.
---
 cpp/SgConserveInterp2D.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index 0057ed3..045233a 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -153,6 +153,10 @@ struct SgConserveInterp2D_type {
 	 */
 	void computeWeights() {
 
+		// discard the weights of any previous computation
+		this->weights.clear();
+		this->reset();
+
 		// cache the edge to edge intersections
 		std::map< std::pair< std::vector<size_t>, std::vector<size_t> >, std::vector<double> > cacheEdgeX;
 
@@ -328,6 +332,9 @@ struct SgConserveInterp2D_type {
 				this->weights.insert(p);
 			}
 		}
+
+		// point to the first of the new weights
+		this->reset();
 	}
 
 	/**
@@ -335,7 +342,9 @@ struct SgConserveInterp2D_type {
 	 */
 	void reset() {
 		this->weightIt = this->weights.begin();
-		this->weightIt2 = this->weightIt->second.begin();		
+		if (this->weightIt != this->weights.end()) {
+			this->weightIt2 = this->weightIt->second.begin();
+		}
 	}
 
 	/** 
-- 
2.43.0


From 1d926241029b96221d2a966e978e5c1932d9fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 02/29] fix: SgConserveInterp2D cursor no longer dereferences
 end iterators

next() and get() read past the end of the map at the end of the iteration and
when there are no weights.
---
 cpp/SgConserveInterp2D.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index 045233a..ba43378 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -352,13 +352,15 @@ struct SgConserveInterp2D_type {
 	 * @return 0 (= continue) or 1 (= stop)
 	 */
 	int next() {
+		if (this->weightIt == this->weights.end()) {
+			// there are no weights
+			return 1;
+		}
 		// increment source counter
 		this->weightIt2++;
 		if (this->weightIt2 == this->weightIt->second.end()) {
 			// reached end of src counter, increment dst counter
 			this->weightIt++;
-			// reset src counter
-			this->weightIt2 = this->weightIt->second.begin();
 			if (this->weightIt == this->weights.end()) {
 				// reached end of dst counter
 				// reset dst and src counters
@@ -366,17 +368,26 @@ struct SgConserveInterp2D_type {
 				// end of iteration 
 				return 1;
 			}
+			// reset src counter
+			this->weightIt2 = this->weightIt->second.begin();
 		}
 		return 0;
 	}
 
 	/**
 	 * Get the current src grid index, dst grid index and weight
-	 * @param srcIndx src grid flat index (output)
-	 * @param dstIndx dst grid flat index (output)
+	 * @param srcIndx src grid flat index (output), -1 if there are no weights
+	 * @param dstIndx dst grid flat index (output), -1 if there are no weights
 	 * @param weight interpolation weight (output)
 	 */
 	void get(int* srcIndx, int* dstIndx, double* weight) {
+		if (this->weightIt == this->weights.end()) {
+			// there are no weights
+			*dstIndx = -1;
+			*srcIndx = -1;
+			*weight = 0;
+			return;
+		}
 		*dstIndx = this->weightIt->first;
 		*srcIndx = this->weightIt2->first;
 		*weight = this->weightIt2->second;
-- 
2.43.0


From 2dce867e4390655c6583ac3f834bed2e53a28776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 03/29] fix: SgFlowInterp2D::computeWeights discards the
 weights of the previous computation

A second call appended to the existing entries, so that fluxes were counted twice.
---
 cpp/SgFlowInterp2D.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 05ace57..01621f6 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -185,6 +185,9 @@ struct SgFlowInterp2D_type {
      */
     void computeWeights() {
 
+        // discard the weights of any previous computation
+        this->weights.clear();
+
         double dstLineCoords[2*NDIMS_2D_PHYS];
         double srcQuadCoords[4*NDIMS_2D_PHYS];
         const int offset1D[] = {0, 1};
-- 
2.43.0


From f8c7d1dafaafca45394246956da8cc9ad6817588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 04/29] fix: SgFlowInterp2D leaked its source grid iterators

The cell iterator was never deleted, and setting another source grid lost all of them.
---
 cpp/SgFlowInterp2D.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 01621f6..9b9d69f 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -54,12 +54,7 @@ struct SgFlowInterp2D_type {
      * Destructor
      */
     ~SgFlowInterp2D_type() {
-        if (this->srcNodeIt) {
-            delete this->srcNodeIt;
-        }
-        for (size_t i = 0; i < this->srcEdgeIts.size(); ++i) {
-            delete this->srcEdgeIts[i];
-        }
+        this->deleteIterators();
     }
 
     /**
@@ -108,6 +103,7 @@ struct SgFlowInterp2D_type {
         int srcEdge1Dims[] = {dims[0], dims[1] - 1};
 
         const int zeros[] = {0, 0};
+        this->deleteIterators();
         this->srcNodeIt = new SgBoxIterator_type(2, zeros, dims);
         this->srcCellIt = new SgBoxIterator_type(2, zeros, srcCellDims);
         this->srcEdgeIts[0] = new SgBoxIterator_type(2, zeros, srcEdge0Dims);
@@ -294,6 +290,20 @@ struct SgFlowInterp2D_type {
 
 private:
 
+    /**
+     * Delete the iterators over the source grid
+     */
+    void deleteIterators() {
+        delete this->srcNodeIt;
+        this->srcNodeIt = NULL;
+        delete this->srcCellIt;
+        this->srcCellIt = NULL;
+        for (size_t i = 0; i < this->srcEdgeIts.size(); ++i) {
+            delete this->srcEdgeIts[i];
+            this->srcEdgeIts[i] = NULL;
+        }
+    }
+
     /** 
      * Extract the destination cell coordinates from the grid
      * @param indx cell flat index
-- 
2.43.0


From 2e79bb49dd9021d5ba5383269a2a8f6f725344ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 05/29] fix: SgQuadIntersect and SgQuadLineIntersect leaked
 their solver when used as local objects

Only the C destructors deleted the solver, so each computeWeights call of
SgConserveInterp2D and SgFlowInterp2D lost one.
---
 cpp/SgQuadIntersect.cpp     | 1 -
 cpp/SgQuadIntersect.h       | 7 +++++++
 cpp/SgQuadLineIntersect.cpp | 1 -
 cpp/SgQuadLineIntersect.h   | 7 +++++++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cpp/SgQuadIntersect.cpp b/cpp/SgQuadIntersect.cpp
index 44ceb24..80cbf92 100644
--- a/cpp/SgQuadIntersect.cpp
+++ b/cpp/SgQuadIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadIntersect_new(SgQuadIntersect_type** self) {
 extern "C"                   
 int SgQuadIntersect_del(SgQuadIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index ea312c9..ff4f9d3 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -48,6 +48,13 @@ struct SgQuadIntersect_type {
         this->quad2Coords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+     ~SgQuadIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionPoints.resize(0);
     }
diff --git a/cpp/SgQuadLineIntersect.cpp b/cpp/SgQuadLineIntersect.cpp
index b6582dd..e7aa5aa 100644
--- a/cpp/SgQuadLineIntersect.cpp
+++ b/cpp/SgQuadLineIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadLineIntersect_new(SgQuadLineIntersect_type** self) {
 extern "C"                   
 int SgQuadLineIntersect_del(SgQuadLineIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 55502a2..3b17edd 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -61,6 +61,13 @@ struct SgQuadLineIntersect_type {
         this->lineCoords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+     ~SgQuadLineIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionLambdas.resize(0);
     }
-- 
2.43.0


From 7b5b3efce572f00525f3ee331ee312e8b7a9c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 06/29] fix: collectIntersectPoints returned the points of
 previous calls again

The points of all calls were accumulated, and the C API has no means of resetting.
---
 cpp/SgQuadIntersect.h     | 3 +++
 cpp/SgQuadLineIntersect.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index ff4f9d3..66adc66 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -232,6 +232,9 @@ struct SgQuadIntersect_type {
     void collectIntersectPoints(int* numPoints, double** points) {
 
         *numPoints = 0;
+
+        // start afresh, these objects can be used more than once
+        this->reset();
         double pt[NDIMS_2D_PHYS];
 
         this->collectNodesInsideQuad((const double*)this->quad1Coords, 
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 3b17edd..ddd5776 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -243,6 +243,9 @@ struct SgQuadLineIntersect_type {
 
         *numPoints = 0;
 
+        // start afresh, these objects can be used more than once
+        this->reset();
+
         // add the starting line point if inside the quad
         if (this->isPointInQuad(&this->lineCoords[0*NDIMS_2D_PHYS], this->quadCoords)) {
           this->intersectionLambdas.push_back(0.0);
-- 
2.43.0


From 5c419fd6402bb67c0d4ef34955165e985fd32fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 07/29] fix: SgFindPointInCell::setGrid forgets the previous
 grid

The bounding box and the periodicity of earlier grids were kept, and the previous
solver was leaked. The box test now uses the tolerance in coordinate space, since
points on the boundary are subject to rounding errors (SgQuadLineFlows relied on
the box having been inflated by previous quads).
---
 cpp/SgFindPointInCell.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index f3980a4..c16d5a9 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -106,10 +106,10 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     this->rhs.resize(ndims);
     this->dIndices.resize(ndims);
     this->targetPoint.resize(ndims);
-    this->xmins.resize(ndims, std::numeric_limits<double>::max());
-    this->xmaxs.resize(ndims, -std::numeric_limits<double>::max());
+    this->xmins.assign(ndims, std::numeric_limits<double>::max());
+    this->xmaxs.assign(ndims, -std::numeric_limits<double>::max());
     // default is no periodicity
-    this->indexPeriodicity.resize(ndims, 0.0);
+    this->indexPeriodicity.assign(ndims, 0.0);
     for (int i = 0; i < ndims; ++i) {
         if (periodicity[i] != 0) {
             this->indexPeriodicity[i] = (double) dims[i];
@@ -141,8 +141,10 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
         }
     }
 
-    // create a solver
-    this->slvr = new SgLinearSolve_type(ndims, ndims);
+    // create a solver, replacing the one of the previous grid
+    SgLinearSolve_type* newSlvr = new SgLinearSolve_type(ndims, ndims);
+    delete this->slvr;
+    this->slvr = newSlvr;
 }
 
 /**
@@ -215,10 +217,13 @@ int next() {
 
     // check if inside domain
     // THIS SHOULD BE MOVED TO THE reset METHOD!!!!!
+    // a target on the boundary may be off by rounding errors, accept 
+    // points that are within the tolerance in coordinate space
+    const double tol = (this->tolpos > eps? this->tolpos: eps);
     bool inside = true;
     for (size_t i = 0; i < ndims; ++i) {
-        inside &= this->targetPoint[i] >= this->xmins[i] - eps;
-        inside &= this->targetPoint[i] <= this->xmaxs[i] + eps;
+        inside &= this->targetPoint[i] >= this->xmins[i] - tol;
+        inside &= this->targetPoint[i] <= this->xmaxs[i] + tol;
     }
     if (!inside) {
         return -3;
-- 
2.43.0


From 9a2500412254f408e9286118c763b21bce9f1ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 08/29] fix: SgTriangulate read beyond its points

The loops ran over the original number of points after degenerate ones had been
removed, and past the last point when all the points are on a line.
---
 cpp/SgTriangulate.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 94d7ef9..94e6928 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -106,7 +106,9 @@ struct SgTriangulate_type {
         size_t lastIndexOfFirstTriangle = this->makeFirstTriangle();
 
         // add the remaining points
-        for (int ip = lastIndexOfFirstTriangle + 1; ip < numPoints; ++ip) {
+        // (degenerate points were removed)
+        int numUniquePoints = (int) (this->points.size() / NDIMS_2D_PHYS);
+        for (int ip = lastIndexOfFirstTriangle + 1; ip < numUniquePoints; ++ip) {
             this->addPoint(ip);
         }
     }
@@ -202,6 +204,9 @@ struct SgTriangulate_type {
             i1 = extrema[1];
             // try creating a triangle using the next available point
             i2++;
+            if (i2 == numPoints) {
+                break;
+            }
             area = std::abs(this->getParallelipipedArea(i0, i1, i2));
         }
         size_t lastPointIndexOfFirstTriangle = i2;
-- 
2.43.0


From 8abc1d9e4ec618ffc1d8b92d0f0cee31b0a52936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 09/29] fix: SgTriangulate kept interior edges as boundary
 edges

The hull area was overestimated when an added point sees more than one edge.
---
 cpp/SgTriangulate.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 94e6928..6586b49 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -317,11 +317,15 @@ struct SgTriangulate_type {
             this->boundaryEdges.erase(*it);
         }
 
-        // add the new boundary edges
+        // add the new boundary edges, an edge that is traversed in both 
+        // directions is shared by two new triangles and so is not on the boundary
         for (std::set< std::vector<size_t> >::const_iterator 
              it = boundaryEdgesToAdd.begin();
              it != boundaryEdgesToAdd.end(); ++it) {
-            this->boundaryEdges.insert(*it);
+            std::vector<size_t> oppositeEdge(it->rbegin(), it->rend());
+            if (boundaryEdgesToAdd.find(oppositeEdge) == boundaryEdgesToAdd.end()) {
+                this->boundaryEdges.insert(*it);
+            }
         }
     }
 };
-- 
2.43.0


From 4a77be845fddd60873633e26b8c1eb6309eaf4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 10/29] fix: SgFindOverlappingCells2D returned cell indices
 computed with the node strides

The flat indices did not identify cells and could exceed the number of cells.
---
 cpp/SgFindOverlappingCells2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index 478955a..e9e4608 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -78,7 +78,7 @@ struct SgFindOverlappingCells2D_type {
         this->srcCellProdDims[NDIMS_2D_TOPO - 1] = 1;
         for (int j = NDIMS_2D_TOPO - 2; j >= 0; --j) {
             // last index varies fastest
-            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * dims[j + 1];
+            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * (dims[j + 1] - 1);
           }
         this->pointFinder->setGrid(2, dims, periodicity, coords);
     }
-- 
2.43.0


From 26544366484a45b3a38edb1dec3dd48dd4464ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 11/29] fix: SgLinearSolve passes the dimensions of the
 transposed matrix to LAPACK

Over and under determined systems gave wrong solutions or were rejected by dgels.
---
 cpp/SgLinearSolve.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/SgLinearSolve.h b/cpp/SgLinearSolve.h
index 384043d..b264d0e 100644
--- a/cpp/SgLinearSolve.h
+++ b/cpp/SgLinearSolve.h
@@ -83,13 +83,14 @@ struct SgLinearSolve_type {
     int errCode = 0;
     char t = 'T'; // C storage
     int nrhs = 1;
-    int ldb = (int) this->b.size();
+    int ldb = (int) this->x.size();
+    // seen by LAPACK the matrix is the transpose, ncol rows and nrow columns
     _GELS_(&t, 
-           &this->nrow, 
            &this->ncol, 
+           &this->nrow, 
            &nrhs,
            &this->mat.front(), 
-           &this->nrow,
+           &this->ncol,
            &this->x.front(), &ldb,
            &this->work.front(), &this->lwork, 
            &errCode);
-- 
2.43.0


From d0c1a74e033b5437dcc92bc8f2410d7cb2147fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 12/29] fix: constructors leaked memory when an allocation
 failed

SgQuadLineFlows and SgFindOverlappingCells2D now own everything they hold when
their last allocation is attempted.
---
 cpp/SgFindOverlappingCells2D.h | 2 +-
 cpp/SgQuadLineFlows.h          | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index e9e4608..a8e6cdb 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -51,9 +51,9 @@ struct SgFindOverlappingCells2D_type {
         this->hiIndxCorner.resize(NDIMS_2D_TOPO); // 2D
         const int nitermax = 100;
         const double tolpos = 1.e-6;
-        this->pointFinder = new SgFindPointInCell_type(nitermax, tolpos);
         this->eps = 0.01;
         this->srcCellFlatInds.reserve(100); // rough estimate
+        this->pointFinder = new SgFindPointInCell_type(nitermax, tolpos);
     }
 
     /** 
diff --git a/cpp/SgQuadLineFlows.h b/cpp/SgQuadLineFlows.h
index b2bdf3d..d433ffa 100644
--- a/cpp/SgQuadLineFlows.h
+++ b/cpp/SgQuadLineFlows.h
@@ -32,6 +32,7 @@ struct SgQuadLineFlows_type {
 
     // store the coordinates in struct grid format
     std::vector<double*> quadGridCoords;
+    std::vector<double> quadGridValues;
 
     // the start/end positions of the line in index space
     std::vector<double> xia;
@@ -47,8 +48,9 @@ struct SgQuadLineFlows_type {
         this->quadGridCoords.resize(2);
         this->xia.resize(2);
         this->xib.resize(2);
-        this->quadGridCoords[0] = new double[4]; // x, 4 nodes
-        this->quadGridCoords[1] = new double[4]; // y
+        this->quadGridValues.resize(2 * 4);
+        this->quadGridCoords[0] = &this->quadGridValues[0]; // x, 4 nodes
+        this->quadGridCoords[1] = &this->quadGridValues[4]; // y
         int nitermax = 10;
         double tolpos = 1.e-10;
         this->indexFinder = new SgFindPointInCell_type(nitermax, tolpos);
@@ -58,8 +60,6 @@ struct SgQuadLineFlows_type {
      * Destructor
      */
      ~SgQuadLineFlows_type() {
-        delete[] this->quadGridCoords[0];
-        delete[] this->quadGridCoords[1];
         delete this->indexFinder;
     }
 
-- 
2.43.0


From 8f20116af8f50cc965bce94e364d0ff546375467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 13/29] fix: ConserveInterp2D.apply returned the same array
 every time

Earlier results were overwritten by the next call, and multiplying by zero kept
any NaN or infinity of the previous result in the cells that do not overlap.
---
 py/conserveInterp2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 0037bd3..bf503ba 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -61,7 +61,7 @@ class ConserveInterp2D:
 		"""
 		if not self.hasInterpWeights:
 			raise RuntimeError('ERROR: must call "computeWeights" prior to invoking "apply"')
-		self.dstData *= 0 # initialize to zero
+		self.dstData = numpy.zeros_like(self.dstData)
 		sigrid.so.SgConserveInterp2D_apply(ctypes.byref(self.handle),
 			                               srcData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
 			                               self.dstData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
-- 
2.43.0


From 7b822a5e2173e8602cc81622de3bdf19571aea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 14/29] fix: ConserveInterp2D forgets that it has weights when
 a grid changes

apply went on with the weights of the previous grid, reading and writing beyond
the arrays if the new grid is smaller.
---
 py/conserveInterp2D.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index bf503ba..45a0b28 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -36,6 +36,8 @@ class ConserveInterp2D:
 
 		sigrid.so.SgConserveInterp2D_setDstGrid(ctypes.byref(self.handle), dims, coords)
 		self.dstData = numpy.zeros((n0 - 1, n1 - 1), numpy.float64)
+		# the weights must be computed again
+		self.hasInterpWeights = False
 
 	def setSrcGrid(self, periodicity, xcoords, ycoords):
 		"""
@@ -52,6 +54,8 @@ class ConserveInterp2D:
 		                                                   ycoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
 		sigrid.so.SgConserveInterp2D_setSrcGrid(ctypes.byref(self.handle), dims, periods, coords)
 		self.hasSrcCoords = True
+		# the weights must be computed again
+		self.hasInterpWeights = False
 
 	def apply(self, srcData):
 		"""
-- 
2.43.0


From 03cba22bf3ea5e6834d5f4f4b6518be3b8d2371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 15/29] fix: ConserveInterp2D misread arrays that are not
 contiguous or not of type float64

The data pointers were passed to the library whatever the strides and the type.
---
 py/conserveInterp2D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 45a0b28..eede67f 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -29,6 +29,8 @@ class ConserveInterp2D:
 		@param xcoords array of point coordinates
 		@param ycoords array of point coordinates
 		"""
+		xcoords = numpy.ascontiguousarray(xcoords, numpy.float64)
+		ycoords = numpy.ascontiguousarray(ycoords, numpy.float64)
 		n0, n1 = xcoords.shape
 		dims = (ctypes.c_int * NDIMS)(n0, n1)
 		coords = (ctypes.POINTER(ctypes.c_double) * NDIMS)(xcoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
@@ -46,6 +48,8 @@ class ConserveInterp2D:
 		@param xcoords array of point coordinates
 		@param ycoords array of point coordinates 
 		"""
+		xcoords = numpy.ascontiguousarray(xcoords, numpy.float64)
+		ycoords = numpy.ascontiguousarray(ycoords, numpy.float64)
 		n0, n1 = xcoords.shape
 		dims = (ctypes.c_int * NDIMS)(n0, n1)
 		p0, p1 = int(periodicity[0]), int(periodicity[1])
@@ -65,6 +69,7 @@ class ConserveInterp2D:
 		"""
 		if not self.hasInterpWeights:
 			raise RuntimeError('ERROR: must call "computeWeights" prior to invoking "apply"')
+		srcData = numpy.ascontiguousarray(srcData, numpy.float64)
 		self.dstData = numpy.zeros_like(self.dstData)
 		sigrid.so.SgConserveInterp2D_apply(ctypes.byref(self.handle),
 			                               srcData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
-- 
2.43.0


From 1369bf273a44cfa1af4cf59c6507843e386efa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 16/29] fix: SgConserveInterp2D lost overlaps of nearly
 coincident cells

When the grids differ by 1.e-12 to 1.e-8 the corner of an overlap could be neither
inside a cell nor at an edge intersection, and duplicates that were not next to each
other produced sliver triangles.
---
 cpp/SgQuadIntersect.h | 10 +++++-----
 cpp/SgTriangulate.h   | 14 ++++++++------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index 66adc66..a7b900f 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -203,11 +203,11 @@ struct SgQuadIntersect_type {
         }
         double* xis;
         this->slvr->getSolution(&xis);
-        // make sure the parametric coordinates are within the (0+, 1-) range
-        // no need to include the end points since they are already taken into 
-        // account when looking for nodes inside cell
-        if (xis[0] > this->tol && xis[0] <= 1 - this->tol && 
-            xis[1] > this->tol && xis[1] <= 1 - this->tol) {
+        // make sure the parametric coordinates are within the (0-, 1+) range
+        // (an end point may be just outside the other quad and so be missed when
+        // looking for nodes inside cell)
+        if (xis[0] >= -this->tol && xis[0] <= 1 + this->tol && 
+            xis[1] >= -this->tol && xis[1] <= 1 + this->tol) {
             // the two edges intersect
             for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
                 pt[j] = edge1Point0[j] + xis[0]*(edge1Point1[j] - edge1Point0[j]);
diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 6586b49..9ab7766 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -139,16 +139,18 @@ struct SgTriangulate_type {
         }
 
         // iterate over the remaining points, making sure the distance square between this 
-        // and the previous point is > 0
-        size_t i0 = 0;
+        // and any of the previous points is > 0
+        std::vector<size_t> kept(1, 0);
         for (size_t i1 = 1; i1 < numPoints; ++i1) {
-            if (this->getDistanceSquare(i0, i1) > this->eps) {
-                // not degenerate
+            bool isDegenerate = false;
+            for (size_t k = 0; k < kept.size() && !isDegenerate; ++k) {
+                isDegenerate = (this->getDistanceSquare(kept[k], i1) <= this->eps);
+            }
+            if (!isDegenerate) {
                 for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
                     pts.push_back(this->points[i1*NDIMS_2D_PHYS + j]);
                 }
-                // new base point
-                i0 = i1;
+                kept.push_back(i1);
             }
         }
         // copy
-- 
2.43.0


From 794078757eea4427e6e35d72e037fcd7a300383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 17/29] fix: SgFlowInterp2D counted segments along grid lines
 twice or not at all

A segment that runs along an edge is within tolerance of both adjacent cells, or, at
the boundary of the domain, was missed because of the perturbation of its points.
Each part of a segment is now attributed to one cell only.
---
 cpp/SgFlowInterp2D.h      | 56 ++++++++++++++++++++++++++++++++++++---
 cpp/SgQuadLineIntersect.h | 15 ++++++++---
 2 files changed, 64 insertions(+), 7 deletions(-)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 9b9d69f..8778f40 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -203,6 +203,11 @@ struct SgFlowInterp2D_type {
 
             intersector.setLinePoints(dstLineCoords);
 
+            // the parts of this segment, as intervals of the linear parametric 
+            // coefficient, that have already been attributed to a src cell. A 
+            // segment that runs along an edge is inside both adjacent cells 
+            std::vector< std::pair<double, double> > claimed;
+
             // iterate over the src quads
             for (size_t srcIndx = 0; srcIndx < this->srcNumCells; ++srcIndx) {
 
@@ -224,8 +229,25 @@ struct SgFlowInterp2D_type {
                 int numPoints = 0;
                 intersector.collectIntersectPoints(&numPoints, &points);
 
-                if (numPoints >= 2) {
-                    // must have at least 2 points
+                // subtract what is already accounted for
+                std::vector<double> newPoints;
+                std::vector< std::pair<double, double> > newIntervals;
+                for (int i = 0; i < numPoints - 1; ++i) {
+                    this->getUnclaimed(intersector.getIntersectionLambdas()[i],
+                                       intersector.getIntersectionLambdas()[i + 1],
+                                       claimed, newIntervals);
+                }
+                for (size_t i = 0; i < newIntervals.size(); ++i) {
+                    for (size_t j = 0; j < 2*NDIMS_2D_PHYS; ++j) {
+                        double lambda = (j < NDIMS_2D_PHYS? newIntervals[i].first: newIntervals[i].second);
+                        double a = dstLineCoords[j % NDIMS_2D_PHYS];
+                        double b = dstLineCoords[j % NDIMS_2D_PHYS + NDIMS_2D_PHYS];
+                        newPoints.push_back(a + lambda*(b - a));
+                    }
+                    claimed.push_back(newIntervals[i]);
+                }
+
+                if (newIntervals.size() > 0) {
                     
                     // find the weight entries for this dstIndx
                     std::map<size_t, std::vector<std::pair<size_t, std::vector<double> > > >::iterator it;
@@ -246,8 +268,8 @@ struct SgFlowInterp2D_type {
                     weightCalc.setQuadPoints(srcQuadCoords);
 
                     // iterate over the segments
-                    for (int i = 0; i < numPoints - 1; ++i) {
-                        weightCalc.setLinePoints(&points[i*NDIMS_2D_PHYS]);
+                    for (size_t i = 0; i < newIntervals.size(); ++i) {
+                        weightCalc.setLinePoints(&newPoints[i*2*NDIMS_2D_PHYS]);
                         weightCalc.computeProjections();
                         
                         w[0] += weightCalc.getProjection(EDGE_LO_0);
@@ -304,6 +326,32 @@ private:
         }
     }
 
+    /**
+     * Get the parts of an interval that have not been claimed yet
+     * @param a start of the interval
+     * @param b end of the interval
+     * @param claimed intervals that do not overlap with each other
+     * @param res the remaining parts are appended to this array (output)
+     */
+    void getUnclaimed(double a, double b, 
+                      const std::vector< std::pair<double, double> >& claimed,
+                      std::vector< std::pair<double, double> >& res) const {
+        // ignore rounding errors
+        const double eps = 1.e-12;
+        for (size_t i = 0; i < claimed.size() && b - a > eps; ++i) {
+            double lo = std::max(a, claimed[i].first);
+            double hi = std::min(b, claimed[i].second);
+            if (hi - lo > eps) {
+                // the part to the left may overlap with other claimed intervals
+                this->getUnclaimed(a, lo, claimed, res);
+                a = hi;
+            }
+        }
+        if (b - a > eps) {
+            res.push_back(std::pair<double, double>(a, b));
+        }
+    }
+
     /** 
      * Extract the destination cell coordinates from the grid
      * @param indx cell flat index
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index ddd5776..ad6ad2a 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -52,8 +52,9 @@ struct SgQuadLineIntersect_type {
      SgQuadLineIntersect_type() {
 
         // tolerance for floating point comparisons
-        //this->tol = 1.e-10;
-        this->tol = 100 * std::numeric_limits<double>::epsilon();
+        // (a line along an edge must not fall between the adjacent quads because of 
+        // rounding errors, nor outside of the domain)
+        this->tol = 1.e-12;
 
         this->slvr = new SgLinearSolve_type(2, 2);
 
@@ -82,7 +83,7 @@ struct SgQuadLineIntersect_type {
       // of the low corner points
       bool overlap = true;
       for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
-        overlap &= std::min(this->quadMax[j], this->lineMax[j]) >= std::max(this->quadMin[j], this->lineMin[j]);
+        overlap &= std::min(this->quadMax[j], this->lineMax[j]) + this->tol >= std::max(this->quadMin[j], this->lineMin[j]);
       }
       return overlap;
     }
@@ -130,6 +131,14 @@ struct SgQuadLineIntersect_type {
         return this->intersectionPoints;
     }
 
+    /**
+     * Get the linear parametric coefficients of the intersection points
+     * @return array
+     */
+    const std::vector<double>& getIntersectionLambdas() const {
+        return this->intersectionLambdas;
+    }
+
     /**
      * Is point inside quad?
      * @param point target coordinates
-- 
2.43.0


From 4244a5cff718f78941e38336ee5b11081d9ac545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:56 +0000
Subject: [PATCH 18/29] fix: SgFindOverlappingCells2D missed cells of polygons
 leaving the grid

---
 cpp/SgFindOverlappingCells2D.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index a8e6cdb..53807f9 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -146,6 +146,17 @@ struct SgFindOverlappingCells2D_type {
             //    totError += 1;
             //}
 
+            if (ier == -3) {
+                // the target point is outside the box containing the src grid, 
+                // there is no telling where the polygon enters the grid. Take 
+                // all the cells
+                for (size_t j = 0; j < this->loIndxCorner.size(); ++j) {
+                    this->loIndxCorner[j] = 0;
+                    this->hiIndxCorner[j] = this->srcNodeDims[j] - 1;
+                }
+                continue;
+            }
+
             // update the low/high box corners
             std::vector<double> dInds = this->pointFinder->getIndices();
             for (size_t j = 0; j < this->loIndxCorner.size(); ++j) {
-- 
2.43.0


From 3b72cbe6c8a30edb880b2dad16be8ff10df2d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 19/29] fix: SgNodeInterp2D dropped points that are found by
 approaching from a side

When the search from the middle of the grid fails, computeWeights tries
again from the sides. A success of these attempts was neither stored nor
reported, the destination node silently got no value.
---
 cpp/SgNodeInterp2D.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cpp/SgNodeInterp2D.h b/cpp/SgNodeInterp2D.h
index 0359048..54a30fe 100644
--- a/cpp/SgNodeInterp2D.h
+++ b/cpp/SgNodeInterp2D.h
@@ -199,7 +199,15 @@ struct SgNodeInterp2D_type {
                     stop = sit.next();
                 }
 
-                if (ier != 0) {
+                if (ier == 0) {
+                    // found the index location from one of the sides
+                    const std::vector<double>& dInds = this->pointFinder->getIndices();
+                    const std::vector< std::pair<size_t, double> > 
+                        iw = this->pointFinder->getSrcIndicesAndWeights(dInds);
+                    std::pair<size_t, std::vector< std::pair<size_t, double> > > p(dstNodeIndex, iw);
+                    this->weights.insert(p);
+                }
+                else {
                     std::cerr << "ERROR: failed to find the index point for " << 
                           targetPoint[0] << ", " << targetPoint[1] << '\n';
                     std::vector<double> pos = this->pointFinder->getPosition();
-- 
2.43.0


From 8ca80e4bc807cf50b503b7bbda8111aef6add7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:59 +0000
Subject: [PATCH 20/29] fix: SgLinearSolve took the zero matrix for regular

dgels returns 0 for a matrix of zeros. Two cell edges that are both
degenerate (poles of two polar grids) were therefore taken to intersect,
which added area to the overlap of cells that need not even touch.
---
 cpp/SgLinearSolve.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp/SgLinearSolve.h b/cpp/SgLinearSolve.h
index b264d0e..b4e58c7 100644
--- a/cpp/SgLinearSolve.h
+++ b/cpp/SgLinearSolve.h
@@ -100,6 +100,16 @@ struct SgLinearSolve_type {
     //                  triangular factor of A is zero, so that 
     //                  A does not have full rank; the least 
     //                  squares solution could not be computed. 
+    if (errCode == 0) {
+        // LAPACK takes the zero matrix for regular
+        bool isZero = true;
+        for (size_t k = 0; k < this->matOri.size(); ++k) {
+            isZero &= (this->matOri[k] == 0);
+        }
+        if (isZero) {
+            errCode = 1;
+        }
+    }
     return errCode;
   }
 
-- 
2.43.0


From 6d2a7585b7deec355c9bd1ef966f2bb06a57c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:27 +0000
Subject: [PATCH 21/29] fix: a failed solve could leave NaN indices in
 SgFindPointInCell

truncateIndices is there to keep the indices in the domain whatever the
solver delivers; NaN passed through both comparisons and was later
converted to a node index.
---
 cpp/SgFindPointInCell.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index c16d5a9..55a4c85 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -419,7 +419,8 @@ void truncateIndices() {
                 this->indexPeriodicity[i]);
         }
         // make sure the indices are within the domain
-        this->dIndices[i] = (this->dIndices[i] < 0? 
+        // (a failed solve can make them NaN)
+        this->dIndices[i] = (!(this->dIndices[i] >= 0)? 
                              0.0: this->dIndices[i]);
         this->dIndices[i] = (this->dIndices[i] > this->dims[i] - 1? 
                              this->dims[i] - 1: this->dIndices[i]);
-- 
2.43.0


From f0ec1dd2bbcd354187cd33737cfdd2211d7a3983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 22/29] fix: SgFlowInterp2D lost segments along the boundary of
 fine grids

The points of the line were perturbed by an absolute amount, which for small
cells exceeds the tolerance of the intersection, and segments that run along
the boundary of the domain got no flux. Common edges are attributed to one
cell only, the perturbation is no longer needed.
---
 cpp/SgFlowInterp2D.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 8778f40..5a63701 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -64,8 +64,6 @@ struct SgFlowInterp2D_type {
      */
     void setDstGrid(const int dims[], const double** coords) {
 
-        const double eps = 10 * std::numeric_limits<double>::epsilon();
-
         size_t dstNumPoints = 1;
         this->dstNumCells = 1;
         for (size_t j = 0; j < NDIMS_1D_TOPO; ++j) {
@@ -77,11 +75,7 @@ struct SgFlowInterp2D_type {
         this->dstGrdCoords.resize(NDIMS_2D_PHYS * dstNumPoints);
         for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
             for (size_t i = 0; i < dstNumPoints; ++i) {
-                //this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i];
-                // apply small perturbation
-                double pertAngle = 1.99 * M_PI * double(i)/double(dstNumPoints - 1);
-                double pertAmpl = eps * (k + 1);
-                this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i] + pertAmpl*cos(pertAngle);
+                this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i];
             }
         }
     }
-- 
2.43.0


From 6e8247913893175629e165fab0c149cbb9334a77 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:18:13 +0000
Subject: [PATCH 23/29] fix: SgQuadLineFlows did not find points on the edges
 of large quads

---
 cpp/SgQuadLineFlows.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp/SgQuadLineFlows.h b/cpp/SgQuadLineFlows.h
index d433ffa..ea4457b 100644
--- a/cpp/SgQuadLineFlows.h
+++ b/cpp/SgQuadLineFlows.h
@@ -71,6 +71,14 @@ struct SgQuadLineFlows_type {
 
       this->quadCoords = (double*)quadCoords;
 
+      // points on the edges of the quad are off by rounding errors, which grow 
+      // with the size of the quad
+      double size = 1;
+      for (size_t i = 0; i < 4*NDIMS_2D_PHYS; ++i) {
+        size = std::max(size, std::abs(quadCoords[i] - quadCoords[i % NDIMS_2D_PHYS]));
+      }
+      this->indexFinder->tolpos = 1.e-10 * size;
+
       // set the grid. Note that we're getting the coordinates in counterclockwise numbering 
       // while the grid assumes structured node ordering, the first index varying faster
       for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
-- 
2.43.0


From e23477dfdeea2fb2222fb573e047703c1f4475dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:44 +0000
Subject: [PATCH 24/29] fix: ConserveInterp2D.setDstGrid left a wrong array
 size behind when it ran out of memory

---
 py/conserveInterp2D.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index eede67f..49d116e 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -36,8 +36,10 @@ class ConserveInterp2D:
 		coords = (ctypes.POINTER(ctypes.c_double) * NDIMS)(xcoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
 		                                                   ycoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
 
+		# can fail, nothing has been changed yet
+		dstData = numpy.zeros((n0 - 1, n1 - 1), numpy.float64)
 		sigrid.so.SgConserveInterp2D_setDstGrid(ctypes.byref(self.handle), dims, coords)
-		self.dstData = numpy.zeros((n0 - 1, n1 - 1), numpy.float64)
+		self.dstData = dstData
 		# the weights must be computed again
 		self.hasInterpWeights = False
 
-- 
2.43.0


From 46e87caaf5732335d9954de65082969d3b1b37cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:08 +0000
Subject: [PATCH 25/29] fix: put the center of a polar grid where the caller
 wants it

The components of the center were added to the radius and to the angle of
the nodes.
---
 utils/createGrids2D.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/createGrids2D.cpp b/utils/createGrids2D.cpp
index aa375a9..e79cdba 100644
--- a/utils/createGrids2D.cpp
+++ b/utils/createGrids2D.cpp
@@ -52,10 +52,10 @@ void createPolarGrid(const int nodeDims[],
     size_t index = 0;
     for (size_t i = 0; i < nodeDims[0]; ++i) {
         for (size_t j = 0; j < nodeDims[1]; ++j) {
-            double rho = center[0] + deltas[0]*i;
-            double the = center[1] + deltas[1]*j;
-            coords[0][index] = rho*cos(the);
-            coords[1][index] = rho*sin(the);
+            double rho = deltas[0]*i;
+            double the = deltas[1]*j;
+            coords[0][index] = center[0] + rho*cos(the);
+            coords[1][index] = center[1] + rho*sin(the);
             index++;
         }
     }
-- 
2.43.0


From b4069633bd6b3810929b6aef7dd0d2f1a24a2429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 26/29] fix: no NaN latitude at the poles of a rotated pole
 grid

Rounding errors can make the sine of the latitude exceed one, for instance
with 361 latitudes and a pole displaced by 2.5 degrees.
---
 utils/createGrids2D.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/createGrids2D.cpp b/utils/createGrids2D.cpp
index e79cdba..2f0cf37 100644
--- a/utils/createGrids2D.cpp
+++ b/utils/createGrids2D.cpp
@@ -115,7 +115,10 @@ void createRotatedPoleGrid(const int nodeDims[],
 
             matrixDotVector(transfMatrix, xyzPrime, xyz);
 
-            coords[0][k] = 180. * asin(xyz[2]) / M_PI;
+            // rounding errors can push a pole off the sphere
+            double sin_lat = (xyz[2] > 1.? 1.: (xyz[2] < -1.? -1.: xyz[2]));
+
+            coords[0][k] = 180. * asin(sin_lat) / M_PI;
             coords[1][k] = 180. * atan2(xyz[1], xyz[0]) / M_PI;
             k++;
         }
-- 
2.43.0


From 53e233f9a0478f4fb767975ee94cc8bcc2540318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 27/29] fix: accept negative values that begin with a decimal
 point

-.5 was taken for the name of an unknown option.
---
 utils/CmdLineArgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/CmdLineArgParser.cpp b/utils/CmdLineArgParser.cpp
index 881dc49..725c17c 100644
--- a/utils/CmdLineArgParser.cpp
+++ b/utils/CmdLineArgParser.cpp
@@ -74,7 +74,7 @@ CmdLineArgParser::parse(int argc, char *argv[]) {
         std::string arg(argv[a]);
         // is arg the name of an option (or a value)?
         bool isOptionName = (arg[0] == '-') 
-            && (arg.size() >= 2) && !isdigit(arg[1]);
+            && (arg.size() >= 2) && !isdigit(arg[1]) && arg[1] != '.';
         if (isOptionName) {
             bool isValidOptName = 
                doubleArg.find(arg) != doubleArg.end()
-- 
2.43.0


From 34d3ceb26fdc59be4ed8cda04d8c740727b15079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 28/29] fix: the middle column of a tripolar cap could end up
 on the wrong side

With 51 longitudes, for instance, rounding errors put the nodes of the
column at longitude 0 to longitude 180.
---
 cpp/SgTripolarGrid.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/SgTripolarGrid.h b/cpp/SgTripolarGrid.h
index dc3e2e4..dde0991 100644
--- a/cpp/SgTripolarGrid.h
+++ b/cpp/SgTripolarGrid.h
@@ -99,6 +99,8 @@ void getGrid(int dims[], double*** coords) {
   for (int j = this->capLatIndex; j < dims[1]; ++j) {
     for (int i = dims[0]/2; i < dims[0]; ++i) {
       pc = pc0 + (dims[0] - i - 1)*di;
+      // rounding errors must not flip the sign of tan(pc)
+      pc = (pc > 0.5*M_PI? 0.5*M_PI: pc);
       elc = elc0 + (1-1.e-10)*(j - this->capLatIndex)*dj;
       this->lons[i+j*dims[0]] = el0 - atan2(sin(elc), tan(pc));
       this->lats[i+j*dims[0]] = 0.5*M_PI  - 2.*atan(tan(latPerim/2.)*
-- 
2.43.0


From b2b534cf55b7a1507c2a8db98d61c46e6dc4d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:58 +0000
Subject: [PATCH 29/29] fix: an option that could not be declared for lack of
 memory broke help()

The value was entered before the help string, which help() takes for granted.
---
 utils/CmdLineArgParser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/CmdLineArgParser.cpp b/utils/CmdLineArgParser.cpp
index 725c17c..87d7a35 100644
--- a/utils/CmdLineArgParser.cpp
+++ b/utils/CmdLineArgParser.cpp
@@ -27,40 +27,40 @@ void
 CmdLineArgParser::set(const std::string& name, 
                       double defaultVal, 
                       const std::string& help) {
-    this->doubleArg[name] = defaultVal;
     this->doubleArgHelp[name] = help;
+    this->doubleArg[name] = defaultVal;
 }
   
 void 
 CmdLineArgParser::set(const std::string& name, 
                       int defaultVal, 
                       const std::string& help) {
-    this->intArg[name] = defaultVal;
     this->intArgHelp[name] = help;
+    this->intArg[name] = defaultVal;
 }
   
 void 
 CmdLineArgParser::set(const std::string& name, 
                       const std::string& defaultVal, 
                       const std::string& help) {
-    this->stringArg[name] = defaultVal;
     this->stringArgHelp[name] = help;
+    this->stringArg[name] = defaultVal;
 }
 
 void 
 CmdLineArgParser::set(const std::string& name, 
                       const char* defaultVal, 
                       const std::string& help) {
-    this->stringArg[name] = std::string(defaultVal);
     this->stringArgHelp[name] = help;
+    this->stringArg[name] = std::string(defaultVal);
 }
 
 void 
 CmdLineArgParser::set(const std::string& name, 
                       bool defaultVal, 
                       const std::string& help) {
-    this->boolArg[name] = defaultVal;
     this->boolArgHelp[name] = help;
+    this->boolArg[name] = defaultVal;
 }
 
 bool
-- 
2.43.0

