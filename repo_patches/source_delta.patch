From d4ec3ae533e1075c88f6a6496c242109e160e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 01/43] fix: let the heap be refilled after popping entries

Heap::push appended to lists of fixed size maxLength and never reused the
place of a popped entry, so pushing more than maxLength entries in total
wrote past the end of the lists although the heap wasn't full.
---
 src/Heap.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Heap.cpp b/src/Heap.cpp
index d2ebea6..aa67a41 100644
--- a/src/Heap.cpp
+++ b/src/Heap.cpp
@@ -48,6 +48,15 @@ namespace slsm
         errno = 0;
         slsm_check(heapLength < maxLength, "push: Heap is full!");
 
+        // Entries popped off the heap keep their place in the list, so make
+        // sure that there is room for another one.
+        if (listLength == address.size())
+        {
+            address.push_back(0);
+            distance.push_back(0);
+            backPointer.push_back(0);
+        }
+
         // Add entry to the heap.
         heap[heapLength]        = listLength;
         address[listLength]     = address_;
-- 
2.43.0


From 090d35d46402120b0b753d48b0c472846d64d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 02/43] fix: don't truncate the side-of-line test to an integer

The cross product was returned as an int, so any point whose cross product
with an edge was less than one counted as lying on the edge and polygons
with short edges were filled incorrectly.
---
 src/LevelSet.cpp | 2 +-
 src/LevelSet.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index f61f8bb..5411123 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1332,7 +1332,7 @@ namespace slsm
         else return true;
     }
 
-    int LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
+    double LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
     {
         return ((vertex2.x - vertex1.x) * (point.y - vertex1.y)
             - (point.x -  vertex1.x) * (vertex2.y - vertex1.y));
diff --git a/src/LevelSet.h b/src/LevelSet.h
index 38a5d82..3bd73d8 100644
--- a/src/LevelSet.h
+++ b/src/LevelSet.h
@@ -394,7 +394,7 @@ namespace slsm
                 = 0 if the point is on the line,
                 < 0 if right of the line.
          */
-        int isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
+        double isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
 
         //! Calculate the material area for an element cut by the boundary.
         /*! \param element
-- 
2.43.0


From 1b1d0eca417624b5550ea29a4bff90d7b7500115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 03/43] fix: reset the mine flag when rebuilding the narrow
 band

Nodes that were once at the edge of the band stayed flagged as mines forever.
---
 src/LevelSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 5411123..f74a372 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -651,6 +651,9 @@ namespace slsm
             // Flag node as inactive.
             mesh.nodes[i].isActive = false;
 
+            // Node isn't a mine, unless found to be one below.
+            mesh.nodes[i].isMine = false;
+
             /* Check that the node isn't in a masked region. If it's not, then check
                whether it lies on the domain boundary, and if it does then check that
                the boundary isn't fixed.
-- 
2.43.0


From 942e2ebfbe16b00248b1abcf8a3cba37ab1a022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 04/43] fix: honour the velocity and gradient options for
 numbered VTK files

---
 src/InputOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 27a77ae..927d91e 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -45,7 +45,7 @@ namespace slsm
         if (!outputDirectory.empty()) fileName << outputDirectory << "/";
         fileName << "level-set_" << num.str() << ".vtk";
 
-        saveLevelSetVTK(fileName.str(), levelSet);
+        saveLevelSetVTK(fileName.str(), levelSet, isVelocity, isGradient);
     }
 
     void InputOutput::saveLevelSetVTK(const std::string& fileName,
-- 
2.43.0


From a6d8103ace58e72e2f0a60ad978852c173fd41c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 05/43] fix: don't read past the level set when loading it from
 file

Text files whose lines don't have the expected columns were read beyond the
end of the signed distance vector, or left part of it unset; truncated or
oversized binary files were accepted silently. Refuse such files.
---
 src/InputOutput.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 927d91e..30c222d 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -218,25 +218,21 @@ namespace slsm
         inputFile.seekg(0, std::ios::beg);
 
         // Read the nodal signed distance fom file.
-
-        // File contains additional nodal coordinate information.
-        if (isXY)
+        for (unsigned int i=0;i<levelSet.mesh.nNodes;i++)
         {
             double tmp;
-            unsigned int node = 0;
 
-            while (inputFile >> tmp >> tmp >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
-        }
+            std::getline(inputFile, line);
+            std::istringstream data(line);
 
-        // File only contains signed distance data.
-        else
-        {
-            double tmp;
-            unsigned int node = 0;
+            // File contains additional nodal coordinate information.
+            if (isXY) data >> tmp >> tmp;
+
+            data >> levelSet.signedDistance[i] >> tmp >> tmp;
 
-            while (inputFile >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
+            // Make sure that the line had the expected number of columns.
+            errno = EINVAL;
+            slsm_check(!data.fail() && (data >> std::ws).eof(), "Malformed data in file %s", fileName.c_str());
         }
 
         return;
@@ -274,6 +270,10 @@ namespace slsm
         // Read the nodal signed distance fom file.
         inputFile.read((char*)&levelSet.signedDistance[0], levelSet.mesh.nNodes*sizeof(double));
 
+        // Make sure that the file held exactly one value for each node.
+        errno = EFBIG;
+        slsm_check(inputFile.good() && (inputFile.peek() == EOF), "Input file contains incorrect number of nodes!");
+
         return;
 
     error:
-- 
2.43.0


From 9bcacdcf5bb62a7a20a664fae8c5de274709a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 06/43] fix: make the random stream depend only on the seed

A normally distributed number cached before calling setSeed was returned
after it.
---
 src/MersenneTwister.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MersenneTwister.h b/src/MersenneTwister.h
index 7fadc83..9eac4c4 100644
--- a/src/MersenneTwister.h
+++ b/src/MersenneTwister.h
@@ -120,6 +120,9 @@ namespace slsm
         {
             seed = seed_;
             generator.seed(seed);
+
+            // Discard any number cached from the previous stream.
+            default_normal_distribution.reset();
         }
 
     private:
-- 
2.43.0


From dfc321f94d6812569af05468a03e21ce1fe14118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 07/43] fix: don't overflow the stack on large meshes

Velocity and normal vector interpolation kept their work arrays, one entry
per node or point, on the stack.
---
 src/Boundary.cpp | 4 ++--
 src/LevelSet.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 372c46d..0571bce 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -540,10 +540,10 @@ namespace slsm
     void Boundary::computeNormalVectors(const LevelSet& levelSet)
     {
         // Whether the normal vector at a boundary point has been set.
-        bool isSet[nPoints];
+        std::vector<bool> isSet(nPoints);
 
         // Weighting factor for each point.
-        double weight[nPoints];
+        std::vector<double> weight(nPoints);
 
         // Initialise arrays.
         for (unsigned int i=0;i<nPoints;i++)
diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index f74a372..6045fe3 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -706,10 +706,10 @@ namespace slsm
         // using inverse squared distance interpolation.
 
         // Whether the velocity at a node has been set.
-        bool isSet[mesh.nNodes];
+        std::vector<bool> isSet(mesh.nNodes);
 
         // Weighting factor for each node.
-        double weight[mesh.nNodes];
+        std::vector<double> weight(mesh.nNodes);
 
         // Initialise arrays.
         for (unsigned int i=0;i<mesh.nNodes;i++)
-- 
2.43.0


From 0a8d601afa95c023c01ca556a9e20415f6f34ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 08/43] fix: normalise interpolated velocities at masked and
 fixed nodes

Nodes outside the narrow band kept the unnormalised sum of inverse square
distance weighted velocities, which the velocity extension then spread into
the band, far exceeding any boundary point velocity.
---
 src/LevelSet.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 6045fe3..a886305 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -787,11 +787,12 @@ namespace slsm
             }
         }
 
-        // Compute interpolated velocity.
-        for (unsigned int i=0;i<nNarrowBand;i++)
+        // Compute interpolated velocity. This includes nodes next to the boundary
+        // that aren't in the narrow band, e.g. masked nodes, since their velocity
+        // is used by the velocity extension.
+        for (unsigned int i=0;i<mesh.nNodes;i++)
         {
-            unsigned int node = narrowBand[i];
-            if (velocity[node]) velocity[node] /= weight[node];
+            if (velocity[i]) velocity[i] /= weight[i];
         }
     }
 
-- 
2.43.0


From db4a52b1d69e15a0e79576458855262c6176df36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 09/43] fix: don't count elements without inside nodes as
 material

An element whose four nodes all lie on the boundary, such as the interior of
a masked region that is two nodes wide, was flagged as inside the structure.
It got an area fraction of one and four boundary segments, overflowing its
segment lookup list of size two.
---
 src/Boundary.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 0571bce..7beeb78 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -741,11 +741,12 @@ namespace slsm
                 else if (mesh.nodes[node].status & NodeStatus::OUTSIDE) tallyOutside++;
             }
 
-            // No nodes are outside: element is inside the structure.
-            if (tallyOutside == 0) mesh.elements[i].status = ElementStatus::INSIDE;
+            // No nodes are inside: element is outside the structure. (This includes
+            // elements whose nodes all lie on the boundary, e.g. in a masked region.)
+            if (tallyInside == 0) mesh.elements[i].status = ElementStatus::OUTSIDE;
 
-            // No nodes are inside: element is outside the structure.
-            else if (tallyInside == 0) mesh.elements[i].status = ElementStatus::OUTSIDE;
+            // No nodes are outside: element is inside the structure.
+            else if (tallyOutside == 0) mesh.elements[i].status = ElementStatus::INSIDE;
 
             // Otherwise no status.
             else mesh.elements[i].status = ElementStatus::NONE;
-- 
2.43.0


From 4a65aec6ca7f34cb5ce824dd11cca85266698b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 10/43] fix: make room for boundary points where more than two
 segments meet

The segment and neighbour lookups of a boundary point hold two entries, but
four segments meet where two parts of the structure touch at a node, or
along a one node wide masked region, which overflowed them.
---
 src/Boundary.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 7beeb78..0adef9c 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -15,6 +15,7 @@
   along with this program. If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include <algorithm>
 #include <cmath>
 
 #include "Boundary.h"
@@ -889,18 +890,27 @@ namespace slsm
             points[segments[i].start].length += 0.5 * segments[i].length;
             points[segments[i].end].length += 0.5 * segments[i].length;
 
+            // More than two segments can meet at a point, e.g. where two parts of
+            // the structure touch at a node, so make sure there is room.
+            points[segments[i].start].segments.resize(std::max(2u, points[segments[i].start].nSegments + 1));
+            points[segments[i].start].neighbours.resize(std::max(2u, points[segments[i].start].nNeighbours + 1));
+
             // Update point to segment lookup for start point.
             points[segments[i].start].segments[points[segments[i].start].nSegments] = i;
             points[segments[i].start].nSegments++;
 
-            // Update point to segment lookup for end point.
-            points[segments[i].end].segments[points[segments[i].end].nSegments] = i;
-            points[segments[i].end].nSegments++;
-
             // Update nearest neighbours for the start point.
             points[segments[i].start].neighbours[points[segments[i].start].nNeighbours] = segments[i].end;
             points[segments[i].start].nNeighbours++;
 
+            // As above for the end point.
+            points[segments[i].end].segments.resize(std::max(2u, points[segments[i].end].nSegments + 1));
+            points[segments[i].end].neighbours.resize(std::max(2u, points[segments[i].end].nNeighbours + 1));
+
+            // Update point to segment lookup for end point.
+            points[segments[i].end].segments[points[segments[i].end].nSegments] = i;
+            points[segments[i].end].nSegments++;
+
             // Update nearest neighbours for the end point.
             points[segments[i].end].neighbours[points[segments[i].end].nNeighbours] = segments[i].start;
             points[segments[i].end].nNeighbours++;
-- 
2.43.0


From 92b8f4fa72ab9a738e9e093a68b2573193dc43f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 11/43] fix: don't use uninitialised node indices outside of
 the narrow band

When none of the cut edges of an element has a node in the narrow band, e.g.
after loading a level set without reinitialising it, the element was taken
to be cut along its diagonal and two uninitialised values used as nodes.
---
 src/Boundary.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 0adef9c..235e692 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -460,6 +460,10 @@ namespace slsm
                         }
                     }
 
+                    // The element is cut outside of the narrow band, where no boundary
+                    // points are created.
+                    if (nCut < 2) continue;
+
                     // Create boundary segment.
                     BoundarySegment segment;
                     segment.element = i;
-- 
2.43.0


From c7c178194735aebea9f20ca2b7a3de94ef7dfe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 12/43] fix: don't produce undefined boundary point normals

---
 src/Boundary.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 235e692..4037ad1 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -630,6 +630,9 @@ namespace slsm
                 // Absolute gradient.
                 double grad = sqrt(gradX*gradX + gradY*gradY);
 
+                // The normal vector is undefined if the gradient vanishes.
+                if (grad == 0) continue;
+
                 // Compute the two normal vector components.
                 double xNormal = gradX / grad;
                 double yNormal = gradY / grad;
@@ -674,7 +677,9 @@ namespace slsm
         // Compute interpolated normal vector.
         for (unsigned int i=0;i<nPoints;i++)
         {
-            if (!points[i].isDomain)
+            // The normal vector is undefined if no neighbouring node contributes,
+            // e.g. because the point lies on a masked node.
+            if (!points[i].isDomain && (weight[i] > 0))
             {
                 points[i].normal.x /= weight[i];
                 points[i].normal.y /= weight[i];
@@ -683,8 +688,12 @@ namespace slsm
                 double norm = sqrt(points[i].normal.x*points[i].normal.x
                             + points[i].normal.y*points[i].normal.y);
 
-                points[i].normal.x /= norm;
-                points[i].normal.y /= norm;
+                // Contributions may cancel.
+                if (norm > 0)
+                {
+                    points[i].normal.x /= norm;
+                    points[i].normal.y /= norm;
+                }
             }
         }
     }
-- 
2.43.0


From 72b0772e77de0f87ff0c5cf7d54051e392e1eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 13/43] fix: let a fast marching object be reused

---
 src/FastMarchingMethod.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 049bf73..ee89798 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -107,6 +107,10 @@ namespace slsm
             // Store a copy of the level set.
             signedDistanceCopy[i] = (*signedDistance)[i];
 
+            // Clear the status from any previous march.
+            if (nodeStatus[i] != FMM_NodeStatus::MASKED)
+                nodeStatus[i] = FMM_NodeStatus::NONE;
+
             // Make sure node isn't masked.
             if (nodeStatus[i] != FMM_NodeStatus::MASKED)
             {
@@ -212,6 +216,8 @@ namespace slsm
                 maxHeapSize++;
         }
 
+        // Remove the heap from any previous march.
+        delete heap;
         heap = new Heap(maxHeapSize, isTest);
     }
 
-- 
2.43.0


From 8b9a8f8c000b7b3110801296a1e01bf075d6e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 14/43] fix: don't mix fast marching stencils from opposite
 directions

---
 src/FastMarchingMethod.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index ee89798..3378ca5 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -472,6 +472,9 @@ namespace slsm
                             // Store distance.
                             dist1 = (*signedDistance)[n1];
 
+                            // Discard second neighbour from the opposite direction.
+                            dist2 = maxDouble;
+
                             // Second neighbour in same direction.
                             unsigned int n2 = mesh.nodes[n1].neighbours[index];
 
-- 
2.43.0


From 158524a6022bb7db8efd2591dc48e6594e3f1459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 15/43] fix: don't fall back on values from before the fast
 march

---
 src/FastMarchingMethod.cpp | 21 +++++++++++++++++----
 src/FastMarchingMethod.h   |  5 ++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 3378ca5..af6953b 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -18,6 +18,7 @@
 
 // Adapted from Scikit-FMM: https://github.com/scikit-fmm/scikit-fmm
 
+#include <algorithm>
 #include <cmath>
 
 #include "Debug.h"
@@ -444,6 +445,9 @@ namespace slsm
 
         double dist1, dist2;
 
+        // The best estimate using a single dimension.
+        double estimate = maxDouble;
+
         // Loop over all dimensions.
         for (unsigned int i=0;i<2;i++)
         {
@@ -505,6 +509,8 @@ namespace slsm
                 a += aa;
                 b -= 2*aa*tp;
                 c += aa*tp*tp;
+
+                estimate = std::min(estimate, std::abs(tp) + 2*oneThird);
             }
             // First order finite difference.
             else if (dist1 < maxDouble)
@@ -512,13 +518,15 @@ namespace slsm
                 a += 1;
                 b -= 2*dist1;
                 c += dist1*dist1;
+
+                estimate = std::min(estimate, std::abs(dist1) + 1);
             }
         }
 
         // Update coefficient.
         c -= 1;
 
-        return solveQuadratic(node, a, b, c);
+        return solveQuadratic(node, a, b, c, estimate);
     }
 
     void FastMarchingMethod::finaliseVelocity(unsigned int node)
@@ -599,7 +607,8 @@ namespace slsm
         exit(EXIT_FAILURE);
     }
 
-    double FastMarchingMethod::solveQuadratic(unsigned int node, const double& a, const double& b, const double& c) const
+    double FastMarchingMethod::solveQuadratic(unsigned int node, const double& a, const double& b,
+        const double& c, const double& estimate) const
     {
         // Initialise roots.
         double r0, r1;
@@ -613,8 +622,12 @@ namespace slsm
             r0 = (-b + sqrt(discrim)) / (2.0 * a);
             r1 = (-b - sqrt(discrim)) / (2.0 * a);
         }
-        // Use previous estimate.
-        else return (*signedDistance)[node];
+        // No real solution, use the best estimate from a single dimension.
+        else
+        {
+            r0 = estimate;
+            r1 = -estimate;
+        }
 
         if (signedDistanceCopy[node] > doubleEpsilon) return r0;
         else return r1;
diff --git a/src/FastMarchingMethod.h b/src/FastMarchingMethod.h
index e5d38b2..3836f8e 100644
--- a/src/FastMarchingMethod.h
+++ b/src/FastMarchingMethod.h
@@ -165,10 +165,13 @@ namespace slsm
             \param c
                 The third quadratic coefficient.
 
+            \param estimate
+                The (absolute) estimate to use when there is no real root.
+
             \return
                 The correct root of the equation.
          */
-        double solveQuadratic(unsigned int, const double&, const double&, const double&) const;
+        double solveQuadratic(unsigned int, const double&, const double&, const double&, const double&) const;
 
         const double doubleEpsilon = std::numeric_limits<double>::epsilon();
         const double maxDouble = std::numeric_limits<double>::max();
-- 
2.43.0


From 40c51244234cb54bef924fbd1cfb7a981d413fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 16/43] fix: treat opposite directions alike in fast marching
 stencils

---
 src/FastMarchingMethod.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index af6953b..5a32677 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -470,14 +470,11 @@ namespace slsm
                     // Neighbour is frozen.
                     if (nodeStatus[n1] & FMM_NodeStatus::FROZEN)
                     {
-                        // Make sure neighbour is closer to the zero contour (upwind).
-                        if (std::abs((*signedDistance)[n1]) < std::abs(dist1))
+                        // Make sure neighbour isn't further from the zero contour (upwind).
+                        if (std::abs((*signedDistance)[n1]) <= std::abs(dist1))
                         {
-                            // Store distance.
-                            dist1 = (*signedDistance)[n1];
-
-                            // Discard second neighbour from the opposite direction.
-                            dist2 = maxDouble;
+                            // Distance at the second neighbour in this direction.
+                            double second = maxDouble;
 
                             // Second neighbour in same direction.
                             unsigned int n2 = mesh.nodes[n1].neighbours[index];
@@ -489,13 +486,23 @@ namespace slsm
                                 if (nodeStatus[n2] & FMM_NodeStatus::FROZEN)
                                 {
                                     // Make sure neighbour is closer to the zero contour (upwind).
-                                    if (std::abs((*signedDistance)[n2]) <= std::abs(dist1))
+                                    if (std::abs((*signedDistance)[n2]) <= std::abs((*signedDistance)[n1]))
                                     {
                                         // Store distance.
-                                        dist2 = (*signedDistance)[n2];
+                                        second = (*signedDistance)[n2];
                                     }
                                 }
                             }
+
+                            // Neighbour is closer to the zero contour, or just as close
+                            // with a second neighbour that is closer.
+                            if (std::abs((*signedDistance)[n1]) < std::abs(dist1)
+                                || std::abs(second) < std::abs(dist2))
+                            {
+                                // Store distances.
+                                dist1 = (*signedDistance)[n1];
+                                dist2 = second;
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 3bbcdfe8e741ad4ac73bb9f1b227a3d78c0cc890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 17/43] fix: keep gradients in bounds when constraints have
 been removed

---
 src/Optimise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index eb1a653..c75ac09 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -711,7 +711,7 @@ namespace slsm
                     // Scale factor.
                     double scaleFactor = scaleFactors[index] * scaleFactors[j];
 
-                    gradient[k] += (boundaryPoints[i].sensitivities[indexMap[index]]
+                    gradient[j] += (boundaryPoints[i].sensitivities[indexMap[index]]
                                  *  boundaryPoints[i].sensitivities[k]
                                  *  boundaryPoints[i].length
                                  *  scaleFactor);
-- 
2.43.0


From e7ff93d9c14c30cd9cee77e6db0b1cda4abbed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 18/43] fix: return each lambda value in the place of its own
 constraint

---
 src/Optimise.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index c75ac09..eb8534a 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -280,17 +280,13 @@ namespace slsm
         // Remap data if there are inactive constraints.
         if (nConstraints < nConstraintsInitial)
         {
-            // Return the lambda vector to its original size.
-            lambdas.resize(1 + nConstraintsInitial);
+            // Copy the lambda values back into position, those of inactive
+            // constraints are zero.
+            std::vector<double> lambdasActive = lambdas;
+            lambdas.assign(1 + nConstraintsInitial, 0.0);
 
-            // Check for constraints.
-            if (nConstraints > 0)
-            {
-                // Copy the lambda values back into position.
-                // Loop backwards to avoid overwriting data.
-                for (unsigned int i=nConstraints+1;i>0;i--)
-                    lambdas[indexMap[i]] = lambdas[i];
-            }
+            for (unsigned int i=0;i<nConstraints+1;i++)
+                lambdas[indexMap[i]] = lambdasActive[i];
         }
 
         // Return the unscaled objective change.
-- 
2.43.0


From 3045b1a6b4462884e36442ff9b47029e4bfac03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 19/43] fix: don't create an empty array when there are no
 constraints

---
 src/Optimise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index eb8534a..d6871fd 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -191,7 +191,7 @@ namespace slsm
         objectiveWrapper.callback = this;
 
         // Create wrappers for constraints.
-        NLoptWrapper constraintWrappers[nConstraints];
+        std::vector<NLoptWrapper> constraintWrappers(nConstraints);
         for (unsigned int i=0;i<nConstraints;i++)
         {
             constraintWrappers[i].index = i + 1;
-- 
2.43.0


From 78d9c5a07008b0efbb476d80091ba9d476dbfaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 20/43] fix: define the optimiser's return code when it throws

---
 src/Optimise.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index d6871fd..49b1819 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -50,7 +50,8 @@ namespace slsm
                        maxDisplacement(maxDisplacement_),
                        isMax(isMax_),
                        isEquality(isEquality_),
-                       algorithm(algorithm_)
+                       algorithm(algorithm_),
+                       returnCode(static_cast<nlopt::result>(0))
     {
         errno = EINVAL;
         slsm_check(((maxDisplacement > 0) && (maxDisplacement_ < 1)), "Move limit must be between 0 and 1.");
@@ -97,7 +98,8 @@ namespace slsm
                        maxDisplacement(maxDisplacement_),
                        isMax(isMax_),
                        isEquality(isEquality_),
-                       algorithm(nlopt::LD_SLSQP)
+                       algorithm(nlopt::LD_SLSQP),
+                       returnCode(static_cast<nlopt::result>(0))
     {
         errno = EINVAL;
         slsm_check(((maxDisplacement > 0) && (maxDisplacement_ < 1)), "Move limit must be between 0 and 1.");
@@ -228,7 +230,7 @@ namespace slsm
         }
 
         // The optimum value of the objective function.
-        double optObjective;
+        double optObjective = 0;
 
         // Whether a single optimisation has been attempted.
         bool isAttempted = false;
@@ -247,6 +249,11 @@ namespace slsm
             // Catch roundoff errors.
             catch (nlopt::roundoff_limited)
             {
+                returnCode = nlopt::ROUNDOFF_LIMITED;
+
+                // There is nothing to reduce, keep the best solution so far.
+                if (nConstraints == 0) break;
+
                 // Reduce the constraint change targets.
                 for (unsigned int i=0;i<nConstraints;i++)
                     constraintDistancesScaled[i] *= 0.7;
@@ -257,6 +264,7 @@ namespace slsm
             {
                 errno = EINVAL;
                 slsm_log_err("Invalid arguments!");
+                exit(EXIT_FAILURE);
             }
         }
 
-- 
2.43.0


From 69bb03d2f452b581929a5ce06fcf5856590db5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 21/43] fix: let an optimiser be used again after removing
 constraints

---
 src/Optimise.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 49b1819..47ab307 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -152,7 +152,14 @@ namespace slsm
         nPoints = boundaryPoints.size();
 
         // Resize boundary point dependent data structures.
-        displacements.resize(nPoints);
+        displacements.assign(nPoints, 0.0);
+
+        // Store the constraints, since inactive ones are removed below.
+        const std::vector<double> initialDistances = constraintDistances;
+        const std::vector<bool> initialEquality = isEquality;
+
+        // Discard targets from any previous optimisation.
+        constraintDistancesScaled = constraintDistances;
 
         // Initialise the index map.
         indexMap.resize(nConstraints + 1);
@@ -297,8 +304,19 @@ namespace slsm
                 lambdas[indexMap[i]] = lambdasActive[i];
         }
 
+        // Store the objective scale factor.
+        const double scaleFactor = scaleFactors[0];
+
+        // Restore the constraints, ready for the next optimisation.
+        nConstraints = nConstraintsInitial;
+        constraintDistances = initialDistances;
+        isEquality = initialEquality;
+        negativeLambdaLimits.resize(nConstraints + 1);
+        positiveLambdaLimits.resize(nConstraints + 1);
+        scaleFactors.resize(nConstraints + 1);
+
         // Return the unscaled objective change.
-        return (optObjective / scaleFactors[0]);
+        return (optObjective / scaleFactor);
     }
 
     void Optimise::computeScaleFactors()
-- 
2.43.0


From 6fc2ed8b86c5bea70556d77ba1f6ffff17cb9782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 22/43] fix: report the objective change of the rescaled
 displacements

---
 src/Optimise.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 47ab307..0617d3b 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -279,7 +279,10 @@ namespace slsm
         computeDisplacements(lambdas);
 
         // Rescale the displacements and lambda values (if necessary).
-        optObjective *= rescaleDisplacements();
+        rescaleDisplacements();
+
+        // Compute the objective change of the final displacements.
+        optObjective = computeFunction(0);
 
         // Calculate the unscaled lambda values.
         for (unsigned int i=0;i<nConstraints+1;i++)
-- 
2.43.0


From 313e2d8081e330a2fa5f7fb68032597ebfe77b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 23/43] fix: refuse to compute gradients on a mesh smaller than
 the stencil

---
 src/LevelSet.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index a886305..c10e8a4 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -445,6 +445,10 @@ namespace slsm
         // Compute gradient of the signed distance function using upwind finite difference.
         // This function assumes that velocities have already been calculated.
 
+        // Make sure that the mesh can hold the finite difference stencil.
+        errno = EINVAL;
+        slsm_check(((mesh.width > 3) && (mesh.height > 3)), "Mesh is too small to compute gradients.");
+
         // Reset gradients.
         std::fill(gradient.begin(), gradient.end(), 0.0);
 
@@ -455,6 +459,11 @@ namespace slsm
             unsigned int node = narrowBand[i];
             gradient[node] = computeGradient(node);
         }
+
+        return;
+
+    error:
+        exit(EXIT_FAILURE);
     }
 
     double LevelSet::computeAreaFractions(const Boundary& boundary)
-- 
2.43.0


From 47ddb470dfbf0ce54a6d9bf103319f65103e257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 24/43] fix: initialise every member of meshes, boundaries and
 level sets

---
 src/Boundary.cpp |  6 +++++-
 src/LevelSet.cpp | 18 ++++++++++++++++++
 src/Mesh.cpp     |  8 ++++++--
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 4037ad1..0a5d012 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -46,12 +46,16 @@ namespace slsm
     BoundarySegment::BoundarySegment() :
         start(0),
         end(0),
+        element(0),
         length(0),
         weight(0)
     {
     }
 
-    Boundary::Boundary()
+    Boundary::Boundary() :
+        nPoints(0),
+        nSegments(0),
+        length(0)
     {
     }
 
diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index c10e8a4..57236f0 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -34,7 +34,10 @@ namespace slsm
 {
     LevelSet::LevelSet(unsigned int width, unsigned int height,
         double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_) :
+        nNarrowBand(0),
+        nMines(0),
         moveLimit(moveLimit_),
+        area(0),
         mesh(Mesh(width, height)),
         bandWidth(bandWidth_),
         isFixedDomain(isFixedDomain_)
@@ -69,7 +72,10 @@ namespace slsm
 
     LevelSet::LevelSet(unsigned int width, unsigned int height, const std::vector<Hole>& holes,
         double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_) :
+        nNarrowBand(0),
+        nMines(0),
         moveLimit(moveLimit_),
+        area(0),
         mesh(Mesh(width, height)),
         bandWidth(bandWidth_),
         isFixedDomain(isFixedDomain_)
@@ -104,7 +110,10 @@ namespace slsm
 
     LevelSet::LevelSet(unsigned int width, unsigned int height, const std::vector<Coord>& points,
         double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_) :
+        nNarrowBand(0),
+        nMines(0),
         moveLimit(moveLimit_),
+        area(0),
         mesh(Mesh(width, height)),
         bandWidth(bandWidth_),
         isFixedDomain(isFixedDomain_)
@@ -139,7 +148,10 @@ namespace slsm
 
     LevelSet::LevelSet(unsigned int width, unsigned int height, const std::vector<Hole>& initialHoles,
         const std::vector<Hole>& targetHoles, double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_) :
+        nNarrowBand(0),
+        nMines(0),
         moveLimit(moveLimit_),
+        area(0),
         mesh(Mesh(width, height)),
         bandWidth(bandWidth_),
         isFixedDomain(isFixedDomain_)
@@ -182,7 +194,10 @@ namespace slsm
 
     LevelSet::LevelSet(unsigned int width, unsigned int height, const std::vector<Hole>& holes,
         const std::vector<Coord>& points, double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_) :
+        nNarrowBand(0),
+        nMines(0),
         moveLimit(moveLimit_),
+        area(0),
         mesh(Mesh(width, height)),
         bandWidth(bandWidth_),
         isFixedDomain(isFixedDomain_)
@@ -225,7 +240,10 @@ namespace slsm
 
     LevelSet::LevelSet(unsigned int width, unsigned int height, const std::vector<Coord>& initialPoints,
         const std::vector<Coord>& targetPoints, double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_) :
+        nNarrowBand(0),
+        nMines(0),
         moveLimit(moveLimit_),
+        area(0),
         mesh(Mesh(width, height)),
         bandWidth(bandWidth_),
         isFixedDomain(isFixedDomain_)
diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 88b1845..9c4449c 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -29,7 +29,9 @@ namespace slsm
     Element::Element() :
         area(0),
         nodes(4, 0),
-        boundarySegments(2, 0)
+        boundarySegments(2, 0),
+        nBoundarySegments(0),
+        status(ElementStatus::NONE)
     {
     }
 
@@ -38,10 +40,12 @@ namespace slsm
         elements(4, 0),
         boundaryPoints(4, 0),
         nElements(0),
+        nBoundaryPoints(0),
         isActive(false),
         isDomain(false),
         isMasked(false),
-        isMine(false)
+        isMine(false),
+        status(NodeStatus::NONE)
     {
     }
 
-- 
2.43.0


From 5a995ac1e3c95085ee222463c032bdd4856d11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 25/43] fix: order polygon vertices with a strict weak ordering

---
 src/LevelSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 57236f0..da7b217 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1465,9 +1465,9 @@ namespace slsm
         if ((point1.x - centre.x) == 0 && (point2.x - centre.x) == 0)
         {
             if ((point1.y - centre.y) >= 0 || (point2.y - centre.y) >= 0)
-                return (point1.y > point2.y) ? false : true;
+                return (point1.y < point2.y);
 
-            return (point2.y > point1.y) ? false : true;
+            return (point2.y < point1.y);
         }
 
         // Compute the cross product of the vectors (centre --> point1) x (centre --> point2).
@@ -1475,7 +1475,7 @@ namespace slsm
                    - (point2.x - centre.x) * (point1.y - centre.y);
 
         if (det < 0) return false;
-        else return true;
+        if (det > 0) return true;
 
         // Points are on the same line from the centre, check which point is
         // closer to the centre.
@@ -1486,7 +1486,7 @@ namespace slsm
         double d2 = (point2.x - centre.x) * (point2.x - centre.x)
                   + (point2.y - centre.y) * (point2.y - centre.y);
 
-        return (d1 > d2) ? false : true;
+        return (d1 < d2);
     }
 
     double LevelSet::polygonArea(std::vector<Coord>& vertices, const unsigned int& nVertices, const Coord& centre) const
-- 
2.43.0


From 49e3b0895bb60ce535bf24bf7af589d5114328bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 26/43] fix: keep the sign of tiny positive values in the fast
 marching method

A node whose value is positive but smaller than the machine epsilon was
given the negative root when it wasn't next to the interface.
---
 src/FastMarchingMethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 5a32677..9b1ff18 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -636,7 +636,7 @@ namespace slsm
             r1 = -estimate;
         }
 
-        if (signedDistanceCopy[node] > doubleEpsilon) return r0;
+        if (signedDistanceCopy[node] > 0) return r0;
         else return r1;
     }
 }
-- 
2.43.0


From ef3b1006c0f6f574818e6a184fbd22808b113918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 27/43] fix: keep boundary nodes of fixed rims when clipping
 elements

With a fixed domain boundary there is no segment along the rim, so a
boundary node between the structure and another boundary node was left
out of the polygon and the area fraction came out too small.
---
 src/LevelSet.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index da7b217..59e610e 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1411,10 +1411,11 @@ namespace slsm
                 unsigned int n2 = (i == 0) ? 3 : (i - 1);
                 n2 = element.nodes[n2];
 
-                // Check that node isn't part of a boundary segment, i.e. both of its
-                // neighbours are inside the structure.
-                if ((mesh.nodes[n1].status & NodeStatus::INSIDE) &&
-                    (mesh.nodes[n2].status & NodeStatus::INSIDE))
+                // Check that node isn't separated from the structure, i.e. neither of
+                // its neighbours is outside. (A node between the structure and another
+                // boundary node isn't part of a segment if the domain boundary is fixed.)
+                if (!(mesh.nodes[n1].status & NodeStatus::OUTSIDE) &&
+                    !(mesh.nodes[n2].status & NodeStatus::OUTSIDE))
                 {
                     // Add coordinates to vertex array.
                     vertices[nVertices].x = mesh.nodes[node].coord.x;
-- 
2.43.0


From b954f3c4c282f373a0c30c584da5a5befc46038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 28/43] fix: normalise normal vectors of boundary points on the
 domain rim

---
 src/Boundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 0a5d012..4388ebc 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -683,7 +683,7 @@ namespace slsm
         {
             // The normal vector is undefined if no neighbouring node contributes,
             // e.g. because the point lies on a masked node.
-            if (!points[i].isDomain && (weight[i] > 0))
+            if (weight[i] > 0)
             {
                 points[i].normal.x /= weight[i];
                 points[i].normal.y /= weight[i];
-- 
2.43.0


From 7a32d3dd755f058782758f5a2557226d5312a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 29/43] fix: report files that could not be written completely

---
 src/InputOutput.cpp | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 30c222d..83682d6 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -29,6 +29,14 @@
 
 namespace slsm
 {
+    // Close an output file, returning whether all of the data was written.
+    static bool closeFile(FILE* pFile)
+    {
+        bool isWritten = !ferror(pFile);
+
+        return (fclose(pFile) == 0) && isWritten;
+    }
+
     InputOutput::InputOutput() {}
 
     void InputOutput::saveLevelSetVTK(const unsigned int& datapoint, const LevelSet& levelSet,
@@ -95,7 +103,9 @@ namespace slsm
                 fprintf(pFile, "%lf\n", levelSet.gradient[i]);
         }
 
-        fclose(pFile);
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -137,7 +147,9 @@ namespace slsm
             fprintf(pFile, "%lf %lf %lf\n", levelSet.signedDistance[i], levelSet.velocity[i], levelSet.gradient[i]);
         }
 
-        fclose(pFile);
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -172,6 +184,11 @@ namespace slsm
         slsm_check(outputFile.good(), "Cannot open file %s", fileName.c_str());
 
         outputFile.write((char*)&levelSet.signedDistance[0], levelSet.mesh.nNodes*sizeof(double));
+        outputFile.close();
+
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check(outputFile.good(), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -312,7 +329,9 @@ namespace slsm
             fprintf(pFile, "%lf %lf %lf\n",
                 boundary.points[i].coord.x, boundary.points[i].coord.y, boundary.points[i].length);
 
-        fclose(pFile);
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -371,7 +390,9 @@ namespace slsm
             fprintf(pFile, "%lf %lf\n\n", x, y);
         }
 
-        fclose(pFile);
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -424,7 +445,9 @@ namespace slsm
         for (unsigned int i=0;i<mesh.nElements;i++)
             fprintf(pFile, "%lf\n", mesh.elements[i].area);
 
-        fclose(pFile);
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -465,7 +488,9 @@ namespace slsm
             fprintf(pFile, "%lf\n", mesh.elements[i].area);
         }
 
-        fclose(pFile);
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Cannot write file %s", fileName.c_str());
 
         return;
 
-- 
2.43.0


From 49957297d8977067441df06e1728950e7bd9cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 30/43] fix: leave functions without sensitivity unscaled in
 the optimiser

---
 src/Optimise.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 0617d3b..08ace44 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -371,8 +371,9 @@ namespace slsm
                 }
             }
 
-            // Store scale factor.
-            scaleFactors[i] = (1.0 / maxSens);
+            // Store scale factor (a function that is insensitive to the
+            // movement of the boundary needs no scaling).
+            scaleFactors[i] = (maxSens > 0) ? (1.0 / maxSens) : 1.0;
         }
 
         // Create lambda vector (all zeros, i.e. at the origin).
@@ -389,7 +390,8 @@ namespace slsm
             computeGradients(gradient, i);
 
             // Scale by diagonal gradient entry (absolute value).
-            scaleFactors[i] *= (1.0 / std::abs(gradient[i]));
+            if (std::abs(gradient[i]) > 0)
+                scaleFactors[i] *= (1.0 / std::abs(gradient[i]));
         }
     }
 
-- 
2.43.0


From ae8bc1af41760dda6c92058f7618185a660f8c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 31/43] fix: check the mesh size before allocating the Swiss
 cheese holes

---
 src/LevelSet.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 59e610e..ed28f60 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -528,8 +528,8 @@ namespace slsm
         unsigned int n2 = ((nx - 1) * (ny - 1));    // inner grid
         unsigned int nHoles = n1 + n2;
 
-        // Initialise a vector of holes.
-        std::vector<Hole> holes(nHoles);
+        // Vector of holes.
+        std::vector<Hole> holes;
 
         // Hole separations.
         double dx, dy;
@@ -537,6 +537,9 @@ namespace slsm
         // Check that mesh is large enough.
         slsm_check(((nx > 2) && (ny > 2)), "Mesh is too small for Swiss cheese initialisation.");
 
+        // Initialise the vector of holes.
+        holes.resize(nHoles);
+
         // Initialise hole separations.
         dx = ((double) mesh.width / (2 * nx));
         dy = ((double) mesh.height / (2 * ny));
-- 
2.43.0


From 5bd4ce82d14b1480811382ff0d5e1bf3063a8c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 32/43] fix: refuse to discretise a target that doesn't exist

---
 src/Boundary.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 4388ebc..1e7be94 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -19,6 +19,7 @@
 #include <cmath>
 
 #include "Boundary.h"
+#include "Debug.h"
 #include "LevelSet.h"
 #include "Mesh.h"
 
@@ -61,6 +62,13 @@ namespace slsm
 
     void Boundary::discretise(LevelSet& levelSet, bool isTarget)
     {
+        // Make sure that there is a target to discretise.
+        if (isTarget && (levelSet.target.size() != levelSet.mesh.nNodes))
+        {
+            slsm_log_err("There is no target signed distance function.");
+            exit(EXIT_FAILURE);
+        }
+
         // Clear and reserve vector memory.
         points.clear();
         segments.clear();
-- 
2.43.0


From db5631e07007a342f5e57cc989594aeb80daf8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 33/43] fix: bind the vector of boundary segments in the Python
 module

---
 python/bindings/README.md         | 1 +
 python/bindings/bind_Boundary.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/python/bindings/README.md b/python/bindings/README.md
index 24b561b..d8c0646 100644
--- a/python/bindings/README.md
+++ b/python/bindings/README.md
@@ -73,6 +73,7 @@ pyslsm.VectorInt == std::vector<int>
 pyslsm.VectorUnsignedInt == std::vector<unsigned int>
 
 pyslsm.VectorBoundaryPoint == std::vector<slsm::BoundaryPoint>
+pyslsm.VectorBoundarySegment == std::vector<slsm::BoundarySegment>
 pyslsm.VectorCoord == std::vector<slsm::Coord>
 pyslsm.VectorElement == std::vector<slsm::Element>
 pyslsm.VectorHole == std::vector<slsm::Hole>
diff --git a/python/bindings/bind_Boundary.cpp b/python/bindings/bind_Boundary.cpp
index 3e44078..1c7a119 100644
--- a/python/bindings/bind_Boundary.cpp
+++ b/python/bindings/bind_Boundary.cpp
@@ -25,11 +25,13 @@ namespace py = pybind11;
 using namespace slsm;
 
 PYBIND11_MAKE_OPAQUE(std::vector<BoundaryPoint>)
+PYBIND11_MAKE_OPAQUE(std::vector<BoundarySegment>)
 
 void bind_Boundary(py::module &m)
 {
     // STL containers.
     py::bind_vector<std::vector<BoundaryPoint>>(m, "VectorBoundaryPoint", py::module_local());
+    py::bind_vector<std::vector<BoundarySegment>>(m, "VectorBoundarySegment", py::module_local());
 
     // Class definition.
     py::class_<BoundaryPoint>(m, "BoundaryPoint", py::module_local(),
-- 
2.43.0


From 2d7f52caef680c2c2843aba2fe0094341f17139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 34/43] fix: keep the mesh alive for a fast marching object in
 Python

---
 python/bindings/bind_FastMarchingMethod.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/bindings/bind_FastMarchingMethod.cpp b/python/bindings/bind_FastMarchingMethod.cpp
index 8a3beda..bfb79d8 100644
--- a/python/bindings/bind_FastMarchingMethod.cpp
+++ b/python/bindings/bind_FastMarchingMethod.cpp
@@ -34,7 +34,8 @@ void bind_FastMarchingMethod(py::module &m)
         // Constructors.
 
         .def(py::init<const Mesh&, bool>(),
-            "Constructor.", py::arg("mesh"), py::arg("isTest") = false)
+            "Constructor.", py::arg("mesh"), py::arg("isTest") = false,
+            py::keep_alive<1, 2>())
 
         // Member functions.
 
-- 
2.43.0


From 70954ffdb845afacd262d80adb76e495b66587f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 35/43] fix: keep the arguments of an optimise object alive in
 Python

---
 python/bindings/bind_Optimise.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/bindings/bind_Optimise.cpp b/python/bindings/bind_Optimise.cpp
index 733128a..9cb9944 100644
--- a/python/bindings/bind_Optimise.cpp
+++ b/python/bindings/bind_Optimise.cpp
@@ -36,7 +36,8 @@ void bind_Optimise(py::module &m)
             MutableFloat&, double, bool, const std::vector<bool>&>(), "Constructor.",
             py::arg("boundaryPoints"), py::arg("constraindDistances"), py::arg("lambdas"),
             py::arg("timeStep"), py::arg("maxDisplacement") = 0.5, py::arg("isMax") = false,
-            py::arg("isEquality") = std::vector<bool>())
+            py::arg("isEquality") = std::vector<bool>(),
+            py::keep_alive<1, 2>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>())
 
         // Member functions.
 
-- 
2.43.0


From f738b2317c3406035239e01c26191ac49b0a75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 36/43] fix: let the segments of a saddle cell agree with its
 centre's status when the corners add up to zero

---
 src/Boundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 1e7be94..faae720 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -370,7 +370,7 @@ namespace slsm
                     NodeStatus::NodeStatus status = levelSet.mesh.nodes[node].status;
 
                     if (((status & NodeStatus::INSIDE) && (lsfSum > 0))  ||
-                        ((status & NodeStatus::OUTSIDE) && (lsfSum < 0)))
+                        ((status & NodeStatus::OUTSIDE) && (lsfSum <= 0)))
                     {
                         segment.start = boundaryPoints[0];
                         segment.end = boundaryPoints[1];
-- 
2.43.0


From 564ece01f8b256acb3f3af6e12fa9144a224d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 37/43] fix: copying a used FastMarchingMethod freed its queue
 twice

---
 src/FastMarchingMethod.cpp | 12 ++----------
 src/FastMarchingMethod.h   |  9 ++++-----
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 9b1ff18..68482b1 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -37,19 +37,12 @@ namespace slsm
         isTest(isTest_),
         outOfBounds(mesh.nNodes)
     {
-        heap = nullptr;
-
         // Resize data structures.
         heapPtr.resize(mesh.nNodes);
         nodeStatus.resize(mesh.nNodes);
         signedDistanceCopy.resize(mesh.nNodes);
     }
 
-    FastMarchingMethod::~FastMarchingMethod()
-    {
-        delete heap;
-    }
-
     void FastMarchingMethod::march(std::vector<double>& signedDistance_)
     {
         signedDistance = &signedDistance_;
@@ -217,9 +210,8 @@ namespace slsm
                 maxHeapSize++;
         }
 
-        // Remove the heap from any previous march.
-        delete heap;
-        heap = new Heap(maxHeapSize, isTest);
+        // Replace the heap from any previous march.
+        heap = std::make_shared<Heap>(maxHeapSize, isTest);
     }
 
     void FastMarchingMethod::initialiseTrial()
diff --git a/src/FastMarchingMethod.h b/src/FastMarchingMethod.h
index 3836f8e..db04a9c 100644
--- a/src/FastMarchingMethod.h
+++ b/src/FastMarchingMethod.h
@@ -22,6 +22,7 @@
 #define _FASTMARCHINGMETHOD_H
 
 #include <limits>
+#include <memory>
 #include <vector>
 
 /*! \file FastMarchingMethod.h
@@ -75,9 +76,6 @@ namespace slsm
          */
         FastMarchingMethod(const Mesh&, bool isTest_=false);
 
-        //! Destructor.
-        ~FastMarchingMethod();
-
         //! Excecute Fast Marching for reinitialisation of the signed distance function.
         /*! \param signedDistance_
                 The nodal signed distance function (level set).
@@ -97,8 +95,9 @@ namespace slsm
         /// A const reference to the level set mesh.
         const Mesh& mesh;
 
-        /// The ascending unsigned distance priority queue.
-        Heap *heap;
+        /// The ascending unsigned distance priority queue. (Each march creates its
+        /// own, so it's safe for copies to share that of an earlier march.)
+        std::shared_ptr<Heap> heap;
 
         /// Back pointers to the heap.
         std::vector<unsigned int> heapPtr;
-- 
2.43.0


From 7789f74120e389ba71433ca3e10e94fc28f383e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:56 +0000
Subject: [PATCH 38/43] fix: the constrained perimeter Python demo posed its
 first constraint with no area

The element areas were not computed before the first iteration, so
levelSet.area was zero (the C++ demo computes them).
---
 python/minimise_perimeter_constrained.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/minimise_perimeter_constrained.py b/python/minimise_perimeter_constrained.py
index dafb1f7..159cf4c 100644
--- a/python/minimise_perimeter_constrained.py
+++ b/python/minimise_perimeter_constrained.py
@@ -82,6 +82,9 @@ boundary = pyslsm.Boundary()
 # Perform initial boundary discretisation.
 boundary.discretise(levelSet)
 
+# Compute the initial element area fractions.
+levelSet.computeAreaFractions(boundary)
+
 # Compute the initial boundary point normal vectors.
 boundary.computeNormalVectors(levelSet)
 
-- 
2.43.0


From 4452947a362c3f66f3c422569ad0d33e6dc4aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:56 +0000
Subject: [PATCH 39/43] fix: the Python demos skipped the fourth neighbour of
 the closest node

The sensitivities are interpolated from the node and all four of its
neighbours (as in the C++ demos); range(-1,3) left out the last.
---
 python/bimodal.py     | 2 +-
 python/dumbbell.py    | 2 +-
 python/shape_match.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/bimodal.py b/python/bimodal.py
index 44bd7f3..e3324c8 100644
--- a/python/bimodal.py
+++ b/python/bimodal.py
@@ -69,7 +69,7 @@ def computeConstraintSensitivity(coord, levelSet):
     node = levelSet.mesh.getClosestNode(coord)
 
     # Loop over node and all of its neighbours.
-    for i in range(-1,3):
+    for i in range(-1,4):
         # Work out index of neighbour.
 
         # First test the node itself.
diff --git a/python/dumbbell.py b/python/dumbbell.py
index 9ebb24f..1db454b 100644
--- a/python/dumbbell.py
+++ b/python/dumbbell.py
@@ -69,7 +69,7 @@ def computeConstraintSensitivity(coord, levelSet):
     node = levelSet.mesh.getClosestNode(coord)
 
     # Loop over node and all of its neighbours.
-    for i in range(-1,3):
+    for i in range(-1,4):
         # Work out index of neighbour.
 
         # First test the node itself.
diff --git a/python/shape_match.py b/python/shape_match.py
index 3012d67..cef9f7b 100644
--- a/python/shape_match.py
+++ b/python/shape_match.py
@@ -47,7 +47,7 @@ def computeSensitivity(coord, levelSet):
     node = levelSet.mesh.getClosestNode(coord)
 
     # Loop over node and all of its neighbours.
-    for i in range(-1,3):
+    for i in range(-1,4):
         # Work out index of neighbour.
 
         # First test the node itself.
-- 
2.43.0


From f1cc40e10b8a33f209b71ade7169a842d074c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:58 +0000
Subject: [PATCH 40/43] fix: umbrella sampling measured its first bias from the
 wrong origin

The centre of mass is relative to the middle of the domain everywhere
else, so the first trial was accepted whatever its bias.
---
 demos/bimodal_brolly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index 7bad08b..3848040 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -297,6 +297,7 @@ int main(int argc, char** argv)
     // Compute the initial centre of mass.
     double xCentreOfMass, tmp;
     computeCentreOfMass(boundary.points, xCentreOfMass, tmp);
+    xCentreOfMass -= 0.5*width;
 
     // Compute the initial bias potential.
     double biasPotential = computeBiasPotential(xCentreOfMass, centre, spring);
-- 
2.43.0


From 6ffdeb75ea4dc9bf0306b1f2112a911f2cbae0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:58 +0000
Subject: [PATCH 41/43] fix: the --umbrella-interval option of the umbrella
 sampling demo was unknown

---
 demos/bimodal_brolly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index 3848040..1a3db75 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -729,7 +729,7 @@ void parseCommandLineArguments(int argc, char **argv, double& temperature,
             spring = atof(argv[i]);
         }
 
-        else if (strcmp(argv[i], "-ui") == 0 || strcmp(argv[i], "--unmbrella-interval") == 0)
+        else if (strcmp(argv[i], "-ui") == 0 || strcmp(argv[i], "--umbrella-interval") == 0)
         {
             i++;
             umbrellaInterval = atof(argv[i]);
-- 
2.43.0


From b6ba5697979914ee50682ef603504ca2b61a8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:58 +0000
Subject: [PATCH 42/43] fix: the umbrella sampling demo overran its buffer for
 long restart file names

---
 demos/bimodal_brolly.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index 1a3db75..59da6da 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -84,7 +84,7 @@ bool isAccepted(double, double, double, slsm::MersenneTwister&);
 
 // Parse arguments from the command-line.
 void parseCommandLineArguments(int, char**, double&, double&, double&,
-    double&, double&, unsigned int&, unsigned int&, char*, bool&, bool&);
+    double&, double&, unsigned int&, unsigned int&, std::string&, bool&, bool&);
 
 // Print help message to stdout.
 void printHelpMessage();
@@ -139,7 +139,7 @@ int main(int argc, char** argv)
     unsigned int nSamples = 10000;
 
     // File name for the starting configuration.
-    char restart[100];
+    std::string restart;
 
     // Whether a restart file is being used.
     bool isRestart = false;
@@ -161,7 +161,7 @@ int main(int argc, char** argv)
     printf(" sampleInterval    = %d\n", sampleInterval);
     printf(" nSamples          = %d\n", nSamples);
     if (isRestart)
-        printf(" restart       = %s\n", restart);
+        printf(" restart       = %s\n", restart.c_str());
 
     // Inverse temperature.
     double beta = 1.0 / temperature;
@@ -246,8 +246,7 @@ int main(int argc, char** argv)
     // Read binary restart file.
     if (isRestart)
     {
-        std::ostringstream restartFile(restart);
-        io.loadLevelSetBIN(restartFile.str(), levelSet);
+        io.loadLevelSetBIN(restart, levelSet);
     }
 
     // Reinitialise the level set to a signed distance function.
@@ -699,7 +698,7 @@ bool isAccepted(double currentbias, double previousBias, double beta, slsm::Mers
 // Parse arguments from the command-line.
 void parseCommandLineArguments(int argc, char **argv, double& temperature,
     double& gravityMult, double& centre, double& spring, double& umbrellaInterval,
-    unsigned int& sampleInterval, unsigned int& nSamples, char* restart, bool& isRestart, bool& isBoundarySample)
+    unsigned int& sampleInterval, unsigned int& nSamples, std::string& restart, bool& isRestart, bool& isBoundarySample)
 {
     int i = 1;
 
@@ -751,7 +750,7 @@ void parseCommandLineArguments(int argc, char **argv, double& temperature,
         {
             i++;
             isRestart = true;
-            strcpy(restart, argv[i]);
+            restart = argv[i];
         }
 
         else if (strcmp(argv[i], "-b") == 0 || strcmp(argv[i], "--boundary-sample") == 0)
-- 
2.43.0


From 551c0721be95c65e6b24aa3675705b8ae3f8a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:13 +0000
Subject: [PATCH 43/43] fix: an option without its value crashed the umbrella
 sampling demo

---
 demos/bimodal_brolly.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index 59da6da..3e0ccd9 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -86,6 +86,9 @@ bool isAccepted(double, double, double, slsm::MersenneTwister&);
 void parseCommandLineArguments(int, char**, double&, double&, double&,
     double&, double&, unsigned int&, unsigned int&, std::string&, bool&, bool&);
 
+// Make sure that a command-line option is followed by its value.
+void checkValue(int, char**, int);
+
 // Print help message to stdout.
 void printHelpMessage();
 
@@ -706,49 +709,49 @@ void parseCommandLineArguments(int argc, char **argv, double& temperature,
     {
         if (strcmp(argv[i], "-t") == 0 || strcmp(argv[i], "--temperature") == 0)
         {
-            i++;
+            checkValue(argc, argv, ++i);
             temperature = atof(argv[i]);
         }
 
         else if (strcmp(argv[i], "-g") == 0 || strcmp(argv[i], "--gravity") == 0)
         {
-            i++;
+            checkValue(argc, argv, ++i);
             gravityMult = atof(argv[i]);
         }
 
         else if (strcmp(argv[i], "-c") == 0 || strcmp(argv[i], "--centre") == 0)
         {
-            i++;
+            checkValue(argc, argv, ++i);
             centre = atof(argv[i]);
         }
 
         else if (strcmp(argv[i], "-s") == 0 || strcmp(argv[i], "--spring") == 0)
         {
-            i++;
+            checkValue(argc, argv, ++i);
             spring = atof(argv[i]);
         }
 
         else if (strcmp(argv[i], "-ui") == 0 || strcmp(argv[i], "--umbrella-interval") == 0)
         {
-            i++;
+            checkValue(argc, argv, ++i);
             umbrellaInterval = atof(argv[i]);
         }
 
         else if (strcmp(argv[i], "-si") == 0 || strcmp(argv[i], "--sample-interval") == 0)
         {
-            i++;
+            checkValue(argc, argv, ++i);
             sampleInterval = atoi(argv[i]);
         }
 
         else if (strcmp(argv[i], "-n") == 0 || strcmp(argv[i], "--number-samples") == 0)
         {
-            i++;
+            checkValue(argc, argv, ++i);
             nSamples = atoi(argv[i]);
         }
 
         else if (strcmp(argv[i], "-r") == 0 || strcmp(argv[i], "--restart") == 0)
         {
-            i++;
+            checkValue(argc, argv, ++i);
             isRestart = true;
             restart = argv[i];
         }
@@ -775,6 +778,17 @@ void parseCommandLineArguments(int argc, char **argv, double& temperature,
     }
 }
 
+// Make sure that a command-line option is followed by its value.
+void checkValue(int argc, char** argv, int i)
+{
+    if (i == argc)
+    {
+        fprintf(stderr, "\n[ERROR]: Missing value for command-line option: %s\n", argv[i-1]);
+        fprintf(stderr, "For help run \"bimodal_brolly -h\"\n");
+        exit(EXIT_FAILURE);
+    }
+}
+
 // Print help message to stdout.
 void printHelpMessage()
 {
-- 
2.43.0

