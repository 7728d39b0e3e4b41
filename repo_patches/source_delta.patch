From 336aaa38312ddfff8cdabe1d5cf95474668a20de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 01/23] fix: heap writes past its arrays when reused beyond its
 initial capacity

---
 src/Heap.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Heap.cpp b/src/Heap.cpp
index d2ebea6..7f7d85d 100644
--- a/src/Heap.cpp
+++ b/src/Heap.cpp
@@ -48,6 +48,14 @@ namespace slsm
         errno = 0;
         slsm_check(heapLength < maxLength, "push: Heap is full!");
 
+        // Entries of the list aren't recycled, make room for the new one.
+        if (listLength == address.size())
+        {
+            address.resize(listLength + 1);
+            distance.resize(listLength + 1);
+            backPointer.resize(listLength + 1);
+        }
+
         // Add entry to the heap.
         heap[heapLength]        = listLength;
         address[listLength]     = address_;
-- 
2.43.0


From a308445d2c773d8c91768e1c340678df9de2b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 02/23] fix: elements can have up to four boundary segments

---
 src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 88b1845..5e5ea45 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -29,7 +29,7 @@ namespace slsm
     Element::Element() :
         area(0),
         nodes(4, 0),
-        boundarySegments(2, 0)
+        boundarySegments(4, 0)
     {
     }
 
-- 
2.43.0


From 961b2756c3a358249a1578856e8596525c36d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 03/23] fix: boundary points where more than two segments meet
 overflow their tables

---
 src/Boundary.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 372c46d..66e0c82 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -888,6 +888,18 @@ namespace slsm
             points[segments[i].start].length += 0.5 * segments[i].length;
             points[segments[i].end].length += 0.5 * segments[i].length;
 
+            // More than two segments can meet at a point: make room for another one.
+            for (unsigned int j=0;j<2;j++)
+            {
+                BoundaryPoint& point = points[(j == 0) ? segments[i].start : segments[i].end];
+
+                if (point.nSegments == point.segments.size())
+                {
+                    point.segments.resize(2*point.nSegments, 0);
+                    point.neighbours.resize(2*point.nNeighbours, 0);
+                }
+            }
+
             // Update point to segment lookup for start point.
             points[segments[i].start].segments[points[segments[i].start].nSegments] = i;
             points[segments[i].start].nSegments++;
-- 
2.43.0


From 37b27b5e1d8305c3c3c79e7a9d177342df3ff10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 04/23] fix: segments of a saddle element with zero mean
 disagree with its status

---
 src/Boundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 66e0c82..df210a1 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -357,7 +357,7 @@ namespace slsm
                     NodeStatus::NodeStatus status = levelSet.mesh.nodes[node].status;
 
                     if (((status & NodeStatus::INSIDE) && (lsfSum > 0))  ||
-                        ((status & NodeStatus::OUTSIDE) && (lsfSum < 0)))
+                        ((status & NodeStatus::OUTSIDE) && (lsfSum <= 0)))
                     {
                         segment.start = boundaryPoints[0];
                         segment.end = boundaryPoints[1];
-- 
2.43.0


From 9224bd4538bc44842a9e31f0e3d24890bd28e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 05/23] fix: a segment that starts and ends at the same point
 overflows its tables

---
 src/Boundary.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index df210a1..5da4833 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -893,10 +893,14 @@ namespace slsm
             {
                 BoundaryPoint& point = points[(j == 0) ? segments[i].start : segments[i].end];
 
-                if (point.nSegments == point.segments.size())
+                // A degenerate segment starts and ends at the same point.
+                unsigned int nRequired = point.nSegments
+                                       + ((segments[i].start == segments[i].end) ? 2 : 1);
+
+                if (nRequired > point.segments.size())
                 {
-                    point.segments.resize(2*point.nSegments, 0);
-                    point.neighbours.resize(2*point.nNeighbours, 0);
+                    point.segments.resize(nRequired, 0);
+                    point.neighbours.resize(nRequired, 0);
                 }
             }
 
-- 
2.43.0


From b7404d7ded1b09ff2413d9649f880a1a7eb8f3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 06/23] fix: boundary normals are not a number next to nodes
 with zero gradient

---
 src/Boundary.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 5da4833..d144ee4 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -625,6 +625,9 @@ namespace slsm
                 // Absolute gradient.
                 double grad = sqrt(gradX*gradX + gradY*gradY);
 
+                // A node with zero gradient doesn't define a direction.
+                if (grad == 0) continue;
+
                 // Compute the two normal vector components.
                 double xNormal = gradX / grad;
                 double yNormal = gradY / grad;
@@ -669,7 +672,8 @@ namespace slsm
         // Compute interpolated normal vector.
         for (unsigned int i=0;i<nPoints;i++)
         {
-            if (!points[i].isDomain)
+            // Skip points for which there was no gradient information.
+            if (!points[i].isDomain && (weight[i] > 0))
             {
                 points[i].normal.x /= weight[i];
                 points[i].normal.y /= weight[i];
@@ -678,8 +682,12 @@ namespace slsm
                 double norm = sqrt(points[i].normal.x*points[i].normal.x
                             + points[i].normal.y*points[i].normal.y);
 
-                points[i].normal.x /= norm;
-                points[i].normal.y /= norm;
+                // Nodal normals can cancel, e.g. between two opposite fronts.
+                if (norm > 0)
+                {
+                    points[i].normal.x /= norm;
+                    points[i].normal.y /= norm;
+                }
             }
         }
     }
-- 
2.43.0


From 816c031cdbaac2a8343d3deb71c8c72753cf4354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 07/23] fix: point-in-polygon test truncates the cross product
 to an integer

---
 src/LevelSet.cpp | 2 +-
 src/LevelSet.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index f61f8bb..5411123 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1332,7 +1332,7 @@ namespace slsm
         else return true;
     }
 
-    int LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
+    double LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
     {
         return ((vertex2.x - vertex1.x) * (point.y - vertex1.y)
             - (point.x -  vertex1.x) * (vertex2.y - vertex1.y));
diff --git a/src/LevelSet.h b/src/LevelSet.h
index 38a5d82..3bd73d8 100644
--- a/src/LevelSet.h
+++ b/src/LevelSet.h
@@ -394,7 +394,7 @@ namespace slsm
                 = 0 if the point is on the line,
                 < 0 if right of the line.
          */
-        int isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
+        double isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
 
         //! Calculate the material area for an element cut by the boundary.
         /*! \param element
-- 
2.43.0


From 5d6dd87a44a159642b294c48e4d629116f2432a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 08/23] fix: nodes keep their mine flag when the narrow band is
 rebuilt

---
 src/LevelSet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 5411123..70e9936 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -648,8 +648,9 @@ namespace slsm
         // Loop over all nodes.
         for (unsigned int i=0;i<mesh.nNodes;i++)
         {
-            // Flag node as inactive.
+            // Flag node as inactive and not a mine.
             mesh.nodes[i].isActive = false;
+            mesh.nodes[i].isMine = false;
 
             /* Check that the node isn't in a masked region. If it's not, then check
                whether it lies on the domain boundary, and if it does then check that
-- 
2.43.0


From a188dfa6dbd649bc1353c2e0ff45c3cd16ad8972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 09/23] fix: reinitialisation flips the sign of tiny positive
 nodes

---
 src/FastMarchingMethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 049bf73..7660302 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -607,7 +607,7 @@ namespace slsm
         // Use previous estimate.
         else return (*signedDistance)[node];
 
-        if (signedDistanceCopy[node] > doubleEpsilon) return r0;
+        if (signedDistanceCopy[node] > 0) return r0;
         else return r1;
     }
 }
-- 
2.43.0


From 3bb1c82cfef971086737dfd7a8fad4c9815275e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 10/23] fix: diagonal segments are built from unset nodes when
 the cut edges lie outside the narrow band

---
 src/Boundary.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index d144ee4..71a50f9 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -459,6 +459,9 @@ namespace slsm
                         }
                     }
 
+                    // The boundary only crosses edges that lie outside the narrow band.
+                    if (nCut != 2) continue;
+
                     // Create boundary segment.
                     BoundarySegment segment;
                     segment.element = i;
-- 
2.43.0


From b1ecc505819c3c22a4d7e908f7ba00305df8d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:25 +0000
Subject: [PATCH 11/23] fix: marching update mixes neighbours from opposite
 directions

---
 src/FastMarchingMethod.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 7660302..67631a1 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -466,6 +466,9 @@ namespace slsm
                             // Store distance.
                             dist1 = (*signedDistance)[n1];
 
+                            // Second neighbour must lie in the same direction.
+                            dist2 = maxDouble;
+
                             // Second neighbour in same direction.
                             unsigned int n2 = mesh.nodes[n1].neighbours[index];
 
-- 
2.43.0


From 3ebda3bd08e5c145ea830521e89808bd0f46092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 12/23] fix: extension starts from unnormalised velocities at
 nodes outside the narrow band

---
 src/LevelSet.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 70e9936..9ca8d9d 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -786,10 +786,9 @@ namespace slsm
         }
 
         // Compute interpolated velocity.
-        for (unsigned int i=0;i<nNarrowBand;i++)
+        for (unsigned int i=0;i<mesh.nNodes;i++)
         {
-            unsigned int node = narrowBand[i];
-            if (velocity[node]) velocity[node] /= weight[node];
+            if (velocity[i]) velocity[i] /= weight[i];
         }
     }
 
-- 
2.43.0


From e27802d0fbcbb1b43ea3a650c5767b31ecae770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:46 +0000
Subject: [PATCH 13/23] fix: gradient stencils read outside meshes smaller than
 4x4

---
 src/LevelSet.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 9ca8d9d..f389cd8 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -875,6 +875,33 @@ namespace slsm
             }
         }
 
+        // The mesh is smaller than the stencils of the WENO approximation,
+        // use first order upwind differences.
+        if (!isGradient && ((mesh.width < 4) || (mesh.height < 4)))
+        {
+            // Upwind direction.
+            int sign = velocity[node] < 0 ? -1 : 1;
+
+            // Edges of the stencil (one-sided on the domain boundary).
+            unsigned int left  = (x == 0) ? 1 : x;
+            unsigned int right = (x == mesh.width) ? x : (x + 1);
+            unsigned int down  = (y == 0) ? 1 : y;
+            unsigned int up    = (y == mesh.height) ? y : (y + 1);
+
+            double gradLeft  = sign * (signedDistance[mesh.xyToIndex[left][y]]  - signedDistance[mesh.xyToIndex[left-1][y]]);
+            double gradRight = sign * (signedDistance[mesh.xyToIndex[right][y]] - signedDistance[mesh.xyToIndex[right-1][y]]);
+            double gradDown  = sign * (signedDistance[mesh.xyToIndex[x][down]]  - signedDistance[mesh.xyToIndex[x][down-1]]);
+            double gradUp    = sign * (signedDistance[mesh.xyToIndex[x][up]]    - signedDistance[mesh.xyToIndex[x][up-1]]);
+
+            if (gradDown > 0)   grad += gradDown * gradDown;
+            if (gradLeft > 0)   grad += gradLeft * gradLeft;
+            if (gradUp < 0)     grad += gradUp * gradUp;
+            if (gradRight < 0)  grad += gradRight * gradRight;
+
+            grad = sqrt(grad);
+            isGradient = true;
+        }
+
         // Gradient hasn't already been calculated.
         if (!isGradient)
         {
-- 
2.43.0


From 6b9747a7bd9adda6cdf953b909a306d1cd74785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:16 +0000
Subject: [PATCH 14/23] fix: numbered level set VTK export drops the velocity
 and gradient sections

---
 src/InputOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 27a77ae..927d91e 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -45,7 +45,7 @@ namespace slsm
         if (!outputDirectory.empty()) fileName << outputDirectory << "/";
         fileName << "level-set_" << num.str() << ".vtk";
 
-        saveLevelSetVTK(fileName.str(), levelSet);
+        saveLevelSetVTK(fileName.str(), levelSet, isVelocity, isGradient);
     }
 
     void InputOutput::saveLevelSetVTK(const std::string& fileName,
-- 
2.43.0


From a5e09a8dfc6fe42666a805d2c4d3f2844e8380cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 15/23] fix: malformed level set files are loaded, text loader
 indexes past the last node

---
 src/InputOutput.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 927d91e..fb193d3 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -219,24 +219,27 @@ namespace slsm
 
         // Read the nodal signed distance fom file.
 
-        // File contains additional nodal coordinate information.
-        if (isXY)
+        for (unsigned int i=0;i<levelSet.mesh.nNodes;i++)
         {
-            double tmp;
-            unsigned int node = 0;
+            std::getline(inputFile, line);
+            std::istringstream lineStream(line);
 
-            while (inputFile >> tmp >> tmp >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
-        }
+            double tmp, signedDistance;
+            bool isValid = true;
 
-        // File only contains signed distance data.
-        else
-        {
-            double tmp;
-            unsigned int node = 0;
+            // File contains additional nodal coordinate information.
+            if (isXY) isValid = static_cast<bool>(lineStream >> tmp >> tmp);
+
+            // Each line holds the signed distance, velocity, and gradient.
+            isValid = isValid && (lineStream >> signedDistance >> tmp >> tmp);
 
-            while (inputFile >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
+            // Make sure that there's nothing else on the line.
+            isValid = isValid && (lineStream >> std::ws).eof();
+
+            errno = EINVAL;
+            slsm_check(isValid, "Input file is incorrectly formatted, line %d!", i + 1);
+
+            levelSet.signedDistance[i] = signedDistance;
         }
 
         return;
@@ -274,6 +277,11 @@ namespace slsm
         // Read the nodal signed distance fom file.
         inputFile.read((char*)&levelSet.signedDistance[0], levelSet.mesh.nNodes*sizeof(double));
 
+        // Make sure that the file held exactly one value per node.
+        errno = EFBIG;
+        slsm_check(inputFile.good() && inputFile.peek() == std::ifstream::traits_type::eof(),
+            "Input file contains incorrect number of nodes!");
+
         return;
 
     error:
-- 
2.43.0


From d6d9a5407564fc800e83fa0f7089ed1773ca2e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:48 +0000
Subject: [PATCH 16/23] fix: a normal draw cached before setSeed leaks into the
 seeded stream

---
 src/MersenneTwister.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MersenneTwister.h b/src/MersenneTwister.h
index 7fadc83..887cdc8 100644
--- a/src/MersenneTwister.h
+++ b/src/MersenneTwister.h
@@ -120,6 +120,10 @@ namespace slsm
         {
             seed = seed_;
             generator.seed(seed);
+
+            // Discard any state that's cached by the distributions.
+            default_uniform_real_distribution.reset();
+            default_normal_distribution.reset();
         }
 
     private:
-- 
2.43.0


From 51605271fd5007bc181a33a691c2c4760f1fdb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 17/23] fix: the optimiser's return code is read before it is
 set

After a round-off failure the loop in Optimise::solve tested a return
code that no call had assigned: it could stop without a solution. An
invalid argument error was logged and then treated the same way.
---
 src/Optimise.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index eb1a653..e7ae30c 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -52,6 +52,9 @@ namespace slsm
                        isEquality(isEquality_),
                        algorithm(algorithm_)
     {
+        // No optimisation has been performed yet.
+        returnCode = static_cast<nlopt::result>(0);
+
         errno = EINVAL;
         slsm_check(((maxDisplacement > 0) && (maxDisplacement_ < 1)), "Move limit must be between 0 and 1.");
         slsm_check(boundaryPoints.size() > 0, "There are no boundary points.");
@@ -99,6 +102,9 @@ namespace slsm
                        isEquality(isEquality_),
                        algorithm(nlopt::LD_SLSQP)
     {
+        // No optimisation has been performed yet.
+        returnCode = static_cast<nlopt::result>(0);
+
         errno = EINVAL;
         slsm_check(((maxDisplacement > 0) && (maxDisplacement_ < 1)), "Move limit must be between 0 and 1.");
         slsm_check(boundaryPoints.size() > 0, "There are no boundary points.");
@@ -247,6 +253,9 @@ namespace slsm
             // Catch roundoff errors.
             catch (nlopt::roundoff_limited)
             {
+                // No solution was found, try again.
+                returnCode = nlopt::ROUNDOFF_LIMITED;
+
                 // Reduce the constraint change targets.
                 for (unsigned int i=0;i<nConstraints;i++)
                     constraintDistancesScaled[i] *= 0.7;
@@ -257,6 +266,7 @@ namespace slsm
             {
                 errno = EINVAL;
                 slsm_log_err("Invalid arguments!");
+                exit(EXIT_FAILURE);
             }
         }
 
-- 
2.43.0


From 18449321b3e19a3f1f6d0c48aaea3abc71f375d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 18/23] fix: zero length array when no constraint is active

---
 src/Optimise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index e7ae30c..5b23e5e 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -197,7 +197,7 @@ namespace slsm
         objectiveWrapper.callback = this;
 
         // Create wrappers for constraints.
-        NLoptWrapper constraintWrappers[nConstraints];
+        std::vector<NLoptWrapper> constraintWrappers(nConstraints);
         for (unsigned int i=0;i<nConstraints;i++)
         {
             constraintWrappers[i].index = i + 1;
-- 
2.43.0


From 012f2507dedb0ecfa0180e7824cf3a87a2f69503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 19/23] fix: gradients and multipliers use the wrong index once
 a constraint is dropped

With an inactive constraint removed, computeGradients indexed the reduced
gradient with the original constraint index and the final remapping read
past the end of the index map and kept stale multipliers for the dropped
constraints.
---
 src/Optimise.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 5b23e5e..0d6e1aa 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -293,13 +293,15 @@ namespace slsm
             // Return the lambda vector to its original size.
             lambdas.resize(1 + nConstraintsInitial);
 
-            // Check for constraints.
-            if (nConstraints > 0)
+            // Copy the lambda values back into position.
+            // Loop backwards to avoid overwriting data.
+            for (unsigned int i=nConstraints;i>0;i--)
             {
-                // Copy the lambda values back into position.
-                // Loop backwards to avoid overwriting data.
-                for (unsigned int i=nConstraints+1;i>0;i--)
+                if (indexMap[i] != i)
+                {
                     lambdas[indexMap[i]] = lambdas[i];
+                    lambdas[i] = 0;
+                }
             }
         }
 
@@ -721,7 +723,7 @@ namespace slsm
                     // Scale factor.
                     double scaleFactor = scaleFactors[index] * scaleFactors[j];
 
-                    gradient[k] += (boundaryPoints[i].sensitivities[indexMap[index]]
+                    gradient[j] += (boundaryPoints[i].sensitivities[indexMap[index]]
                                  *  boundaryPoints[i].sensitivities[k]
                                  *  boundaryPoints[i].length
                                  *  scaleFactor);
-- 
2.43.0


From 67630eaad3186be886b5f5c18339f3d020c7409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 20/23] fix: edge points move further than the maximum
 displacement

When a displacement was capped by a side limit larger than the maximum
displacement, rescaling shrank the multipliers but not the capped
displacement, which stayed beyond the maximum.
---
 src/Optimise.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 0d6e1aa..4a2b438 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -662,8 +662,10 @@ namespace slsm
                 if (boundaryPoints[i].isDomain)
                 {
                     // Apply side limit (the point can't move outside the domain).
-                    if (displacements[i] < boundaryPoints[i].negativeLimit)
-                        displacements[i] = boundaryPoints[i].negativeLimit;
+                    // The limit never allows more than the maximum displacement.
+                    double limit = std::max(boundaryPoints[i].negativeLimit, -maxDisplacement);
+                    if (displacements[i] < limit)
+                        displacements[i] = limit;
                 }
             }
         }
-- 
2.43.0


From bea1b6d2fd67046a0e8aef93ac82665b4f71c915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:01 +0000
Subject: [PATCH 21/23] fix: normals of boundary points at the domain edge are
 not normalised

They were left as weighted sums of nodal normals, of any length.
---
 src/Boundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 71a50f9..daac145 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -676,7 +676,7 @@ namespace slsm
         for (unsigned int i=0;i<nPoints;i++)
         {
             // Skip points for which there was no gradient information.
-            if (!points[i].isDomain && (weight[i] > 0))
+            if (weight[i] > 0)
             {
                 points[i].normal.x /= weight[i];
                 points[i].normal.y /= weight[i];
-- 
2.43.0


From d12832858ea873048a7f2c4d08785b2d89a52d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 22/23] fix: default level set on a small mesh allocates the
 holes before checking its size

The number of holes underflows for meshes narrower than 15 elements, so
construction ended in an allocation failure rather than the error.
---
 src/LevelSet.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index f389cd8..9f4c39b 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -501,8 +501,8 @@ namespace slsm
         unsigned int n2 = ((nx - 1) * (ny - 1));    // inner grid
         unsigned int nHoles = n1 + n2;
 
-        // Initialise a vector of holes.
-        std::vector<Hole> holes(nHoles);
+        // Vector of holes.
+        std::vector<Hole> holes;
 
         // Hole separations.
         double dx, dy;
@@ -510,6 +510,9 @@ namespace slsm
         // Check that mesh is large enough.
         slsm_check(((nx > 2) && (ny > 2)), "Mesh is too small for Swiss cheese initialisation.");
 
+        // Initialise the vector of holes.
+        holes.resize(nHoles);
+
         // Initialise hole separations.
         dx = ((double) mesh.width / (2 * nx));
         dy = ((double) mesh.height / (2 * ny));
-- 
2.43.0


From a45cac48d2a224f782b86df015ea452b85f645a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 23/23] fix: a wrong number of equality flags is not rejected

Optimise read past the end of the vector for the missing flags.
---
 src/Optimise.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 4a2b438..64aba89 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -67,6 +67,7 @@ namespace slsm
         errno = EINVAL;
         slsm_check(!((nConstraints > 0) && constraintDistances.empty()), "Empty constraint distance vector.");
         slsm_check(nConstraints == constraintDistances.size(), "Incorrect number of constraints.");
+        slsm_check(isEquality.empty() || (isEquality.size() == nConstraints), "Incorrect number of equality flags.");
 
         // Resize data structures.
         negativeLambdaLimits.resize(nConstraints + 1);
@@ -117,6 +118,7 @@ namespace slsm
         errno = EINVAL;
         slsm_check(!((nConstraints > 0) && constraintDistances.empty()), "Empty constraint distance vector.");
         slsm_check(nConstraints == constraintDistances.size(), "Incorrect number of constraints.");
+        slsm_check(isEquality.empty() || (isEquality.size() == nConstraints), "Incorrect number of equality flags.");
 
         // Resize data structures.
         negativeLambdaLimits.resize(nConstraints + 1);
-- 
2.43.0

