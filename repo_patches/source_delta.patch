From 7417c9f106bccc2b3d41179dd8d8b834ea36974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 01/29] fix: let a boundary point have more than two segments
 and neighbours

Where the contour touches itself at a node (e.g. two holes that share a
node) more than two segments end at the point, and computePointLengths
wrote past the end of the two-element look-up vectors.
---
 src/Boundary.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 372c46d..642c1d9 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -879,6 +879,16 @@ namespace slsm
         return (sqrt(dx*dx + dy*dy));
     }
 
+    // Append an entry to a look-up vector that holds nEntries valid entries. The vector is
+    // enlarged if it is full, e.g. when the contour touches itself at a boundary point.
+    static void addEntry(std::vector<unsigned int>& entries, unsigned int& nEntries, unsigned int entry)
+    {
+        if (nEntries < entries.size()) entries[nEntries] = entry;
+        else entries.push_back(entry);
+
+        nEntries++;
+    }
+
     void Boundary::computePointLengths()
     {
         // Loop over all boundary segments.
@@ -889,20 +899,16 @@ namespace slsm
             points[segments[i].end].length += 0.5 * segments[i].length;
 
             // Update point to segment lookup for start point.
-            points[segments[i].start].segments[points[segments[i].start].nSegments] = i;
-            points[segments[i].start].nSegments++;
+            addEntry(points[segments[i].start].segments, points[segments[i].start].nSegments, i);
 
             // Update point to segment lookup for end point.
-            points[segments[i].end].segments[points[segments[i].end].nSegments] = i;
-            points[segments[i].end].nSegments++;
+            addEntry(points[segments[i].end].segments, points[segments[i].end].nSegments, i);
 
             // Update nearest neighbours for the start point.
-            points[segments[i].start].neighbours[points[segments[i].start].nNeighbours] = segments[i].end;
-            points[segments[i].start].nNeighbours++;
+            addEntry(points[segments[i].start].neighbours, points[segments[i].start].nNeighbours, segments[i].end);
 
             // Update nearest neighbours for the end point.
-            points[segments[i].end].neighbours[points[segments[i].end].nNeighbours] = segments[i].start;
-            points[segments[i].end].nNeighbours++;
+            addEntry(points[segments[i].end].neighbours, points[segments[i].end].nNeighbours, segments[i].start);
         }
     }
 }
-- 
2.43.0


From b8afebe0d2a77c09814c753e5f8198a60b1d55d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 02/29] fix: make room for four boundary segments in an element

An element whose four nodes all lie on the contour has a segment along
each of its edges; the third and fourth were written past the end of the
look-up vector.
---
 src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 88b1845..5e5ea45 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -29,7 +29,7 @@ namespace slsm
     Element::Element() :
         area(0),
         nodes(4, 0),
-        boundarySegments(2, 0)
+        boundarySegments(4, 0)
     {
     }
 
-- 
2.43.0


From f5a0f3932c8105e85c44b519bb9f0eb720caa38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 03/29] fix: only add a diagonal segment between two boundary
 nodes

When the cut edges of an element are ignored because none of their nodes
is active (e.g. at a corner of a fixed domain) the element has fewer than
two boundary nodes, and the end points of the diagonal segment were read
from uninitialised memory.
---
 src/Boundary.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 642c1d9..84d5960 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -459,6 +459,10 @@ namespace slsm
                         }
                     }
 
+                    // The contour only crosses the element if there are two such nodes. (There
+                    // can be fewer when cut edges lie outside of the narrow band region.)
+                    if (nCut != 2) continue;
+
                     // Create boundary segment.
                     BoundarySegment segment;
                     segment.element = i;
-- 
2.43.0


From 0c6fde687c5ea40ae8671974d3f3a9f8b1d68961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 04/29] fix: discard cached normal draws when setting the seed

The standard normal distribution produces draws in pairs and keeps the
second one, so that the first draw after setSeed could belong to the
previous seed.
---
 src/MersenneTwister.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MersenneTwister.h b/src/MersenneTwister.h
index 7fadc83..1057f06 100644
--- a/src/MersenneTwister.h
+++ b/src/MersenneTwister.h
@@ -120,6 +120,10 @@ namespace slsm
         {
             seed = seed_;
             generator.seed(seed);
+
+            // Discard any value that was cached by the distributions.
+            default_uniform_real_distribution.reset();
+            default_normal_distribution.reset();
         }
 
     private:
-- 
2.43.0


From 4a14c018f6f23f0c4a9feb0e5d4e51d70059f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 05/29] fix: let the heap be pushed to again after entries were
 popped

List entries are never reused, so pushing more than maxLength entries in
total wrote past the end of the list even if the heap wasn't full.
---
 src/Heap.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Heap.cpp b/src/Heap.cpp
index d2ebea6..128eb4f 100644
--- a/src/Heap.cpp
+++ b/src/Heap.cpp
@@ -48,6 +48,15 @@ namespace slsm
         errno = 0;
         slsm_check(heapLength < maxLength, "push: Heap is full!");
 
+        // Make sure there is room in the list. (Entries remain in the list once they
+        // have been popped, so it can become longer than the heap.)
+        if (listLength == distance.size())
+        {
+            address.push_back(0);
+            distance.push_back(0);
+            backPointer.push_back(0);
+        }
+
         // Add entry to the heap.
         heap[heapLength]        = listLength;
         address[listLength]     = address_;
-- 
2.43.0


From f9291d0c33aad6a8fee9c83c1f9376f29c29c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 06/29] fix: don't truncate the side-of-line test to an integer

Points within one unit of area of a short polygon edge were treated as
lying on the line, so nodes near small edges ended up on the wrong side
of the polygon.
---
 src/LevelSet.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index f61f8bb..1c11b40 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1334,8 +1334,11 @@ namespace slsm
 
     int LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
     {
-        return ((vertex2.x - vertex1.x) * (point.y - vertex1.y)
-            - (point.x -  vertex1.x) * (vertex2.y - vertex1.y));
+        double area = ((vertex2.x - vertex1.x) * (point.y - vertex1.y)
+                    - (point.x -  vertex1.x) * (vertex2.y - vertex1.y));
+
+        // Return the sign, since values smaller than one would be truncated to zero.
+        return (area > 0) - (area < 0);
     }
 
     double LevelSet::cutArea(const Element& element, const Boundary& boundary) const
-- 
2.43.0


From 67e4a2e833ea40e68aa4902e3ee0a93cc4fd5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 07/29] fix: never return NaN normal vectors

The normal was divided by zero for a boundary point all of whose band
nodes have zero gradient (e.g. around a hole that holds a single node),
whose nodal normals cancel, or that has no node in the narrow band (e.g.
on the edge of a masked region).
---
 src/Boundary.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 84d5960..87f339b 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -629,6 +629,9 @@ namespace slsm
                 // Absolute gradient.
                 double grad = sqrt(gradX*gradX + gradY*gradY);
 
+                // The normal vector is undefined where the gradient vanishes.
+                if (grad == 0) continue;
+
                 // Compute the two normal vector components.
                 double xNormal = gradX / grad;
                 double yNormal = gradY / grad;
@@ -673,7 +676,8 @@ namespace slsm
         // Compute interpolated normal vector.
         for (unsigned int i=0;i<nPoints;i++)
         {
-            if (!points[i].isDomain)
+            // The weight is zero if no adjacent node has a normal vector.
+            if (!points[i].isDomain && (weight[i] > 0))
             {
                 points[i].normal.x /= weight[i];
                 points[i].normal.y /= weight[i];
@@ -682,8 +686,12 @@ namespace slsm
                 double norm = sqrt(points[i].normal.x*points[i].normal.x
                             + points[i].normal.y*points[i].normal.y);
 
-                points[i].normal.x /= norm;
-                points[i].normal.y /= norm;
+                // Normal vectors of the adjacent nodes can cancel.
+                if (norm > 0)
+                {
+                    points[i].normal.x /= norm;
+                    points[i].normal.y /= norm;
+                }
             }
         }
     }
-- 
2.43.0


From 1d569d80fd520d332c07f18132dafc006c660d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 08/29] fix: start each fast march from a clean state

A second march with the same object kept the node status of the first,
so every node was still frozen and the result was stale, and the heap of
the first march was leaked.
---
 src/FastMarchingMethod.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 049bf73..f176d8e 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -18,6 +18,7 @@
 
 // Adapted from Scikit-FMM: https://github.com/scikit-fmm/scikit-fmm
 
+#include <algorithm>
 #include <cmath>
 
 #include "Debug.h"
@@ -98,6 +99,9 @@ namespace slsm
 
     void FastMarchingMethod::initialiseFrozen()
     {
+        // Reset the status of all nodes (needed if the object has been used before).
+        std::fill(nodeStatus.begin(), nodeStatus.end(), FMM_NodeStatus::NONE);
+
         // The number of frozen nodes.
         unsigned int nFrozen = 0;
 
@@ -212,6 +216,9 @@ namespace slsm
                 maxHeapSize++;
         }
 
+        // Delete the heap from any previous march.
+        delete heap;
+
         heap = new Heap(maxHeapSize, isTest);
     }
 
-- 
2.43.0


From 3838dd517c7f3b6c131d72e4db7ce75a663e1290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 09/29] fix: reset mine flags when the narrow band is rebuilt

Nodes that had once been a mine stayed flagged after the contour moved.
---
 src/LevelSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 1c11b40..73c523c 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -651,6 +651,9 @@ namespace slsm
             // Flag node as inactive.
             mesh.nodes[i].isActive = false;
 
+            // Flag node as not being a mine.
+            mesh.nodes[i].isMine = false;
+
             /* Check that the node isn't in a masked region. If it's not, then check
                whether it lies on the domain boundary, and if it does then check that
                the boundary isn't fixed.
-- 
2.43.0


From 52de5529d36e4738652cdf5d6c6ddc126105175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 10/29] fix: pass on the velocity and gradient flags of
 saveLevelSetVTK

The numbered form ignored both flags and never wrote these fields.
---
 src/InputOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 27a77ae..927d91e 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -45,7 +45,7 @@ namespace slsm
         if (!outputDirectory.empty()) fileName << outputDirectory << "/";
         fileName << "level-set_" << num.str() << ".vtk";
 
-        saveLevelSetVTK(fileName.str(), levelSet);
+        saveLevelSetVTK(fileName.str(), levelSet, isVelocity, isGradient);
     }
 
     void InputOutput::saveLevelSetVTK(const std::string& fileName,
-- 
2.43.0


From 4cdc557e50eb14c48d37262c3a000cd2a3fa2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 11/29] fix: refuse binary level sets of the wrong size

A file of another mesh, or a truncated one, was loaded partially without
an error; the text form already checks the number of nodes.
---
 src/InputOutput.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 927d91e..dba8b20 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -271,6 +271,15 @@ namespace slsm
         errno = ENOENT;
         slsm_check(inputFile.good(), "Cannot open file %s", fileName.c_str());
 
+        // Check the size of the file.
+        inputFile.seekg(0, std::ios::end);
+        errno = EFBIG;
+        slsm_check(inputFile.tellg() == std::streampos(levelSet.mesh.nNodes*sizeof(double)),
+            "Input file contains incorrect number of nodes!");
+
+        // Rewind the file.
+        inputFile.seekg(0, std::ios::beg);
+
         // Read the nodal signed distance fom file.
         inputFile.read((char*)&levelSet.signedDistance[0], levelSet.mesh.nNodes*sizeof(double));
 
-- 
2.43.0


From 4e87121e5f6c0bf254ce3835d14684038d3ceace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 12/29] fix: normalise interpolated velocities at all nodes

Masked nodes next to the boundary kept the sum of velocities divided by
the squared distances, without dividing by the total weight, and passed
it on to their neighbours in the velocity extension.
---
 src/LevelSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 73c523c..99ce0ec 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -787,11 +787,11 @@ namespace slsm
             }
         }
 
-        // Compute interpolated velocity.
-        for (unsigned int i=0;i<nNarrowBand;i++)
+        // Compute interpolated velocity. (Nodes next to the boundary that aren't part of the
+        // narrow band, e.g. masked nodes, are also used when extending the velocities.)
+        for (unsigned int i=0;i<mesh.nNodes;i++)
         {
-            unsigned int node = narrowBand[i];
-            if (velocity[node]) velocity[node] /= weight[node];
+            if (velocity[i]) velocity[i] /= weight[i];
         }
     }
 
-- 
2.43.0


From 472ba2b570f86886d451647d1815f0f2f727742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 13/29] fix: store gradients by active index

With a constraint removed, the entries of the gradient vector were
addressed by the original constraint index, i.e. in the wrong slot or
past its end.
---
 src/Optimise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index eb1a653..c75ac09 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -711,7 +711,7 @@ namespace slsm
                     // Scale factor.
                     double scaleFactor = scaleFactors[index] * scaleFactors[j];
 
-                    gradient[k] += (boundaryPoints[i].sensitivities[indexMap[index]]
+                    gradient[j] += (boundaryPoints[i].sensitivities[indexMap[index]]
                                  *  boundaryPoints[i].sensitivities[k]
                                  *  boundaryPoints[i].length
                                  *  scaleFactor);
-- 
2.43.0


From 8fac7f95dcac27779886ac8a5308c3346c4575a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 14/29] fix: restore lambda values to the slots of their own
 constraints

The loop read one element past the end of the index map and left values
of active constraints behind in the slots of inactive ones.
---
 src/Optimise.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index c75ac09..ebe9288 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -280,17 +280,14 @@ namespace slsm
         // Remap data if there are inactive constraints.
         if (nConstraints < nConstraintsInitial)
         {
-            // Return the lambda vector to its original size.
-            lambdas.resize(1 + nConstraintsInitial);
+            // Return the lambda vector to its original size. The lambda values
+            // of inactive constraints are zero.
+            std::vector<double> activeLambdas(lambdas);
+            lambdas.assign(1 + nConstraintsInitial, 0.0);
 
-            // Check for constraints.
-            if (nConstraints > 0)
-            {
-                // Copy the lambda values back into position.
-                // Loop backwards to avoid overwriting data.
-                for (unsigned int i=nConstraints+1;i>0;i--)
-                    lambdas[indexMap[i]] = lambdas[i];
-            }
+            // Copy the lambda values back into position.
+            for (unsigned int i=0;i<nConstraints+1;i++)
+                lambdas[indexMap[i]] = activeLambdas[i];
         }
 
         // Return the unscaled objective change.
-- 
2.43.0


From 7ae3c4d5e50c7f10804e330e024f2f34b4d0d44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 15/29] fix: check the records of a text level set while
 reading

A file with coordinates read without the isXY flag holds more numbers
than expected, which were written past the end of the signed distance
vector; the opposite mistake left nodes unread without an error.
---
 src/InputOutput.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index dba8b20..fdba6dc 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -200,6 +200,8 @@ namespace slsm
         LevelSet& levelSet, bool isXY) const
     {
         unsigned int nLines = 0;
+        unsigned int nRead = 0;
+        double tmp;
         std::string line;
         std::ifstream inputFile(fileName.c_str());
 
@@ -222,23 +224,24 @@ namespace slsm
         // File contains additional nodal coordinate information.
         if (isXY)
         {
-            double tmp;
-            unsigned int node = 0;
-
-            while (inputFile >> tmp >> tmp >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
+            while ((nRead < levelSet.mesh.nNodes) &&
+                   (inputFile >> tmp >> tmp >> levelSet.signedDistance[nRead] >> tmp >> tmp))
+                nRead++;
         }
 
         // File only contains signed distance data.
         else
         {
-            double tmp;
-            unsigned int node = 0;
-
-            while (inputFile >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
+            while ((nRead < levelSet.mesh.nNodes) &&
+                   (inputFile >> levelSet.signedDistance[nRead] >> tmp >> tmp))
+                nRead++;
         }
 
+        // Check that there was exactly one record per node.
+        errno = EFBIG;
+        slsm_check((nRead == levelSet.mesh.nNodes) && !(inputFile >> tmp),
+            "Input file contains incorrect number of nodes!");
+
         return;
 
     error:
-- 
2.43.0


From e59605c0d4d7bf92180b2addeb2b9f22213a59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 16/29] Add guarded trace hook to Heap::pop (SLSM_TRACE)

---
 src/Heap.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Heap.cpp b/src/Heap.cpp
index 128eb4f..b3c7453 100644
--- a/src/Heap.cpp
+++ b/src/Heap.cpp
@@ -25,6 +25,11 @@
     \brief An implementation of a heap data structure (binary tree).
  */
 
+#ifdef SLSM_TRACE
+// Verification hook: report each entry as it leaves the heap.
+extern "C" void slsm_trace_pop(unsigned int address, double value);
+#endif
+
 namespace slsm
 {
     Heap::Heap(unsigned int maxLength_, bool isTest_) :
@@ -99,6 +104,10 @@ namespace slsm
         // Sift new heap head up.
         siftUp(0);
 
+#ifdef SLSM_TRACE
+        slsm_trace_pop(address_, value);
+#endif
+
         // Test heap.
         if (isTest) test();
 
-- 
2.43.0


From 363a9fd47c16b348a8fd770316c18aa592e1d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 17/29] fix: treat the centre of a balanced saddle as outside
 consistently

When the four node values sum to zero the element is flagged as having its
centre outside, but with an outside first node the segments were those of
a centre that is inside, so that the area didn't match the contour.
---
 src/Boundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 87f339b..d4b30e5 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -357,7 +357,7 @@ namespace slsm
                     NodeStatus::NodeStatus status = levelSet.mesh.nodes[node].status;
 
                     if (((status & NodeStatus::INSIDE) && (lsfSum > 0))  ||
-                        ((status & NodeStatus::OUTSIDE) && (lsfSum < 0)))
+                        ((status & NodeStatus::OUTSIDE) && (lsfSum <= 0)))
                     {
                         segment.start = boundaryPoints[0];
                         segment.end = boundaryPoints[1];
-- 
2.43.0


From dc8baa83461a63e6640978cde55dbb45e08cd467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 18/29] fix: include contour nodes on the edge of a fixed
 domain in the area of a cut element

---
 src/LevelSet.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 99ce0ec..9d3cf78 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1386,10 +1386,12 @@ namespace slsm
                 unsigned int n2 = (i == 0) ? 3 : (i - 1);
                 n2 = element.nodes[n2];
 
-                // Check that node isn't part of a boundary segment, i.e. both of its
-                // neighbours are inside the structure.
-                if ((mesh.nodes[n1].status & NodeStatus::INSIDE) &&
-                    (mesh.nodes[n2].status & NodeStatus::INSIDE))
+                // Check that neither of its neighbours is outside the structure. If one is,
+                // then the node is either the end of a boundary segment, or an isolated point.
+                // (An edge between two boundary nodes needn't be a segment, e.g. along the edge
+                // of a fixed domain.)
+                if (!(mesh.nodes[n1].status & NodeStatus::OUTSIDE) &&
+                    !(mesh.nodes[n2].status & NodeStatus::OUTSIDE))
                 {
                     // Add coordinates to vertex array.
                     vertices[nVertices].x = mesh.nodes[node].coord.x;
-- 
2.43.0


From b05974c97ccbde85f4266ed84c043c7d7c9d8198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 19/29] fix: don't combine upwind neighbours of opposite
 directions in a second order update

---
 src/FastMarchingMethod.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index f176d8e..54c248c 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -473,6 +473,9 @@ namespace slsm
                             // Store distance.
                             dist1 = (*signedDistance)[n1];
 
+                            // Discard any second neighbour of the opposite direction.
+                            dist2 = maxDouble;
+
                             // Second neighbour in same direction.
                             unsigned int n2 = mesh.nodes[n1].neighbours[index];
 
-- 
2.43.0


From a8e5127cf94a636cb9514a30e5e27b225e4d2072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 20/29] fix: use the nearer direction alone when the upwind
 quadratic has no real solution

---
 src/FastMarchingMethod.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 54c248c..f121916 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -445,6 +445,9 @@ namespace slsm
 
         double dist1, dist2;
 
+        // Smallest (absolute) distance found using a single dimension.
+        double single = maxDouble;
+
         // Loop over all dimensions.
         for (unsigned int i=0;i<2;i++)
         {
@@ -506,6 +509,8 @@ namespace slsm
                 a += aa;
                 b -= 2*aa*tp;
                 c += aa*tp*tp;
+
+                single = std::min(single, std::abs(tp) + 2*oneThird);
             }
             // First order finite difference.
             else if (dist1 < maxDouble)
@@ -513,12 +518,18 @@ namespace slsm
                 a += 1;
                 b -= 2*dist1;
                 c += dist1*dist1;
+
+                single = std::min(single, std::abs(dist1) + 1);
             }
         }
 
         // Update coefficient.
         c -= 1;
 
+        // The dimensions are too far apart to be combined, use the nearest.
+        if ((b*b - 4*a*c) <= 0)
+            return (signedDistanceCopy[node] > doubleEpsilon) ? single : -single;
+
         return solveQuadratic(node, a, b, c);
     }
 
-- 
2.43.0


From 0e5a67adffcd3ba767f53f71640af09e8a73226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 21/29] fix: choose the root of the upwind quadratic by the
 sign of the node for tiny values

---
 src/FastMarchingMethod.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index f121916..a163f93 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -528,7 +528,7 @@ namespace slsm
 
         // The dimensions are too far apart to be combined, use the nearest.
         if ((b*b - 4*a*c) <= 0)
-            return (signedDistanceCopy[node] > doubleEpsilon) ? single : -single;
+            return (signedDistanceCopy[node] > 0) ? single : -single;
 
         return solveQuadratic(node, a, b, c);
     }
@@ -628,7 +628,7 @@ namespace slsm
         // Use previous estimate.
         else return (*signedDistance)[node];
 
-        if (signedDistanceCopy[node] > doubleEpsilon) return r0;
+        if (signedDistanceCopy[node] > 0) return r0;
         else return r1;
     }
 }
-- 
2.43.0


From 136d8482fffc10b7450cfa93cabfb2cddf5df847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 22/29] fix: count nodes exactly one grid spacing inside the
 edge of the band as mines

---
 src/LevelSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 9d3cf78..9ba9f42 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -676,7 +676,7 @@ namespace slsm
                     nNarrowBand++;
 
                     // Node lines at edge of band.
-                    if (absoluteSignedDistance > mineWidth)
+                    if (absoluteSignedDistance >= mineWidth)
                     {
                         // Node is a mine.
                         mesh.nodes[i].isMine = true;
-- 
2.43.0


From 7bbce127bce2127ffd65ab84e2783cfc0c9473a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 23/29] fix: normalise the normal vectors of points on the
 domain boundary

---
 src/Boundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index d4b30e5..8e5caf6 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -677,7 +677,7 @@ namespace slsm
         for (unsigned int i=0;i<nPoints;i++)
         {
             // The weight is zero if no adjacent node has a normal vector.
-            if (!points[i].isDomain && (weight[i] > 0))
+            if (weight[i] > 0)
             {
                 points[i].normal.x /= weight[i];
                 points[i].normal.y /= weight[i];
-- 
2.43.0


From 206534d835c358a57372d52e8ee43c43bd894563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 24/29] fix: initialise the return code of the optimiser

---
 src/Optimise.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index ebe9288..95ee80d 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -50,7 +50,8 @@ namespace slsm
                        maxDisplacement(maxDisplacement_),
                        isMax(isMax_),
                        isEquality(isEquality_),
-                       algorithm(algorithm_)
+                       algorithm(algorithm_),
+                       returnCode(static_cast<nlopt::result>(0))
     {
         errno = EINVAL;
         slsm_check(((maxDisplacement > 0) && (maxDisplacement_ < 1)), "Move limit must be between 0 and 1.");
@@ -97,7 +98,8 @@ namespace slsm
                        maxDisplacement(maxDisplacement_),
                        isMax(isMax_),
                        isEquality(isEquality_),
-                       algorithm(nlopt::LD_SLSQP)
+                       algorithm(nlopt::LD_SLSQP),
+                       returnCode(static_cast<nlopt::result>(0))
     {
         errno = EINVAL;
         slsm_check(((maxDisplacement > 0) && (maxDisplacement_ < 1)), "Move limit must be between 0 and 1.");
-- 
2.43.0


From 054c80ce3564c5952b87258439836031e251d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 25/29] fix: refuse a Swiss cheese on a narrow mesh before
 making room for its holes

---
 src/LevelSet.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 9ba9f42..ace3d88 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -501,8 +501,8 @@ namespace slsm
         unsigned int n2 = ((nx - 1) * (ny - 1));    // inner grid
         unsigned int nHoles = n1 + n2;
 
-        // Initialise a vector of holes.
-        std::vector<Hole> holes(nHoles);
+        // The vector of holes.
+        std::vector<Hole> holes;
 
         // Hole separations.
         double dx, dy;
@@ -510,6 +510,9 @@ namespace slsm
         // Check that mesh is large enough.
         slsm_check(((nx > 2) && (ny > 2)), "Mesh is too small for Swiss cheese initialisation.");
 
+        // Initialise the vector of holes.
+        holes.resize(nHoles);
+
         // Initialise hole separations.
         dx = ((double) mesh.width / (2 * nx));
         dy = ((double) mesh.height / (2 * ny));
-- 
2.43.0


From 4344a05485132f60eb3d1ace00f5e02fe63681b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:37 +0000
Subject: [PATCH 26/29] fix: solve the whole problem again when an optimiser is
 used more than once

---
 src/Optimise.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 95ee80d..930b102 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -151,8 +151,19 @@ namespace slsm
         // This can change between successive optimisation calls.
         nPoints = boundaryPoints.size();
 
-        // Resize boundary point dependent data structures.
-        displacements.resize(nPoints);
+        // Initialise boundary point dependent data structures.
+        displacements.assign(nPoints, 0.0);
+
+        // Store the constraint data, since inactive constraints are removed below.
+        const std::vector<double> initialDistances(constraintDistances);
+        const std::vector<bool> initialEquality(isEquality);
+
+        // Discard what is left of a previous solution.
+        constraintDistancesScaled = constraintDistances;
+        negativeLambdaLimits.resize(nConstraints + 1);
+        positiveLambdaLimits.resize(nConstraints + 1);
+        scaleFactors.resize(nConstraints + 1);
+        returnCode = static_cast<nlopt::result>(0);
 
         // Initialise the index map.
         indexMap.resize(nConstraints + 1);
@@ -290,6 +301,11 @@ namespace slsm
             // Copy the lambda values back into position.
             for (unsigned int i=0;i<nConstraints+1;i++)
                 lambdas[indexMap[i]] = activeLambdas[i];
+
+            // Restore the inactive constraints, they may be active next time.
+            nConstraints = nConstraintsInitial;
+            constraintDistances = initialDistances;
+            isEquality = initialEquality;
         }
 
         // Return the unscaled objective change.
-- 
2.43.0


From e5ba085223da9bd586d5d04eb6ec364f64cfba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:42 +0000
Subject: [PATCH 27/29] fix: keep the velocity weights of large meshes off the
 stack

---
 src/LevelSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index ace3d88..a1a1fa5 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -709,10 +709,10 @@ namespace slsm
         // using inverse squared distance interpolation.
 
         // Whether the velocity at a node has been set.
-        bool isSet[mesh.nNodes];
+        std::vector<bool> isSet(mesh.nNodes);
 
         // Weighting factor for each node.
-        double weight[mesh.nNodes];
+        std::vector<double> weight(mesh.nNodes);
 
         // Initialise arrays.
         for (unsigned int i=0;i<mesh.nNodes;i++)
-- 
2.43.0


From 83cc6146cfb46ed74e71f3bbd2a64c6feced0742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:20 +0000
Subject: [PATCH 28/29] fix: computeGradients read outside the mesh when it is
 less than four elements wide or high

---
 src/LevelSet.cpp | 54 ++++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index a1a1fa5..21f11ef 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -887,6 +887,20 @@ namespace slsm
             // Stencil values for the WENO approximation.
             double v1, v2, v3, v4, v5;
 
+            // Derivatives between neighbouring nodes, measured from the ith node in the row
+            // (or column). Derivatives outside of the domain (which narrow meshes can
+            // reach from either side) are approximated by the one at the edge.
+            auto slopeX = [&](int i)
+            {
+                i = std::max(0, std::min(i, int(mesh.width) - 1));
+                return signedDistance[mesh.xyToIndex[i+1][y]] - signedDistance[mesh.xyToIndex[i][y]];
+            };
+            auto slopeY = [&](int i)
+            {
+                i = std::max(0, std::min(i, int(mesh.height) - 1));
+                return signedDistance[mesh.xyToIndex[x][i+1]] - signedDistance[mesh.xyToIndex[x][i]];
+            };
+
             // Upwind direction.
             int sign = velocity[node] < 0 ? -1 : 1;
 
@@ -895,8 +909,8 @@ namespace slsm
             // Node on left-hand edge.
             if (x == 0)
             {
-                v1 = signedDistance[mesh.xyToIndex[3][y]] - signedDistance[mesh.xyToIndex[2][y]];
-                v2 = signedDistance[mesh.xyToIndex[2][y]] - signedDistance[mesh.xyToIndex[1][y]];
+                v1 = slopeX(2);
+                v2 = slopeX(1);
                 v3 = signedDistance[mesh.xyToIndex[1][y]] - signedDistance[mesh.xyToIndex[0][y]];
 
                 // Approximate derivatives outside of domain.
@@ -907,9 +921,9 @@ namespace slsm
             // One node to right of left-hand edge.
             else if (x == 1)
             {
-                v1 = signedDistance[mesh.xyToIndex[4][y]] - signedDistance[mesh.xyToIndex[3][y]];
-                v2 = signedDistance[mesh.xyToIndex[3][y]] - signedDistance[mesh.xyToIndex[2][y]];
-                v3 = signedDistance[mesh.xyToIndex[2][y]] - signedDistance[mesh.xyToIndex[1][y]];
+                v1 = slopeX(3);
+                v2 = slopeX(2);
+                v3 = slopeX(1);
                 v4 = signedDistance[mesh.xyToIndex[1][y]] - signedDistance[mesh.xyToIndex[0][y]];
 
                 // Approximate derivatives outside of domain.
@@ -969,8 +983,8 @@ namespace slsm
             // Node on right-hand edge.
             if (x == mesh.width)
             {
-                v1 = signedDistance[mesh.xyToIndex[x-2][y]] - signedDistance[mesh.xyToIndex[x-3][y]];
-                v2 = signedDistance[mesh.xyToIndex[x-1][y]] - signedDistance[mesh.xyToIndex[x-2][y]];
+                v1 = slopeX(int(x)-3);
+                v2 = slopeX(int(x)-2);
                 v3 = signedDistance[mesh.xyToIndex[x][y]]   - signedDistance[mesh.xyToIndex[x-1][y]];
 
                 // Approximate derivatives outside of domain.
@@ -981,9 +995,9 @@ namespace slsm
             // One node to left of right-hand edge.
             else if (x == (mesh.width-1))
             {
-                v1 = signedDistance[mesh.xyToIndex[x-2][y]] - signedDistance[mesh.xyToIndex[x-3][y]];
-                v2 = signedDistance[mesh.xyToIndex[x-1][y]] - signedDistance[mesh.xyToIndex[x-2][y]];
-                v3 = signedDistance[mesh.xyToIndex[x][y]]   - signedDistance[mesh.xyToIndex[x-1][y]];
+                v1 = slopeX(int(x)-3);
+                v2 = slopeX(int(x)-2);
+                v3 = slopeX(int(x)-1);
                 v4 = signedDistance[mesh.xyToIndex[x+1][y]] - signedDistance[mesh.xyToIndex[x][y]];
 
                 // Approximate derivatives outside of domain.
@@ -1043,8 +1057,8 @@ namespace slsm
             // Node on bottom edge.
             if (y == 0)
             {
-                v1 = signedDistance[mesh.xyToIndex[x][3]] - signedDistance[mesh.xyToIndex[x][2]];
-                v2 = signedDistance[mesh.xyToIndex[x][2]] - signedDistance[mesh.xyToIndex[x][1]];
+                v1 = slopeY(2);
+                v2 = slopeY(1);
                 v3 = signedDistance[mesh.xyToIndex[x][1]] - signedDistance[mesh.xyToIndex[x][0]];
 
                 // Approximate derivatives outside of domain.
@@ -1055,9 +1069,9 @@ namespace slsm
             // One node above bottom edge.
             else if (y == 1)
             {
-                v1 = signedDistance[mesh.xyToIndex[x][4]] - signedDistance[mesh.xyToIndex[x][3]];
-                v2 = signedDistance[mesh.xyToIndex[x][3]] - signedDistance[mesh.xyToIndex[x][2]];
-                v3 = signedDistance[mesh.xyToIndex[x][2]] - signedDistance[mesh.xyToIndex[x][1]];
+                v1 = slopeY(3);
+                v2 = slopeY(2);
+                v3 = slopeY(1);
                 v4 = signedDistance[mesh.xyToIndex[x][1]] - signedDistance[mesh.xyToIndex[x][0]];
 
                 // Approximate derivatives outside of domain.
@@ -1117,8 +1131,8 @@ namespace slsm
             // Node on top edge.
             if (y == mesh.height)
             {
-                v1 = signedDistance[mesh.xyToIndex[x][y-2]] - signedDistance[mesh.xyToIndex[x][y-3]];
-                v2 = signedDistance[mesh.xyToIndex[x][y-1]] - signedDistance[mesh.xyToIndex[x][y-2]];
+                v1 = slopeY(int(y)-3);
+                v2 = slopeY(int(y)-2);
                 v3 = signedDistance[mesh.xyToIndex[x][y]]   - signedDistance[mesh.xyToIndex[x][y-1]];
 
                 // Approximate derivatives outside of domain.
@@ -1129,9 +1143,9 @@ namespace slsm
             // One node below top edge.
             else if (y == (mesh.height - 1))
             {
-                v1 = signedDistance[mesh.xyToIndex[x][y-2]] - signedDistance[mesh.xyToIndex[x][y-3]];
-                v2 = signedDistance[mesh.xyToIndex[x][y-1]] - signedDistance[mesh.xyToIndex[x][y-2]];
-                v3 = signedDistance[mesh.xyToIndex[x][y]]   - signedDistance[mesh.xyToIndex[x][y-1]];
+                v1 = slopeY(int(y)-3);
+                v2 = slopeY(int(y)-2);
+                v3 = slopeY(int(y)-1);
                 v4 = signedDistance[mesh.xyToIndex[x][y+1]] - signedDistance[mesh.xyToIndex[x][y]];
 
                 // Approximate derivatives outside of domain.
-- 
2.43.0


From 853f744cf67b9eb5560dc5c9abeb2c753497e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:30 +0000
Subject: [PATCH 29/29] fix: identify boundary points on cut edges by their
 edge rather than by coordinates

---
 src/Boundary.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 8e5caf6..cb27f80 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -802,9 +802,23 @@ namespace slsm
             // Index of the ith boundary point connected to the node.
             unsigned int index = mesh.nodes[node].boundaryPoints[i];
 
+            // A point on a cut edge is connected to both of its nodes. (Crossings of different
+            // edges can't be told apart by their coordinates if they are close to the same node.)
+            if (distance > 0)
+            {
+                // Neighbours are ordered: left, right, down, up.
+                const unsigned int direction[4] = {1, 3, 0, 2};
+                const Node& other = mesh.nodes[mesh.nodes[node].neighbours[direction[edge]]];
+
+                for (unsigned int j=0;j<other.nBoundaryPoints;j++)
+                {
+                    if (other.boundaryPoints[j] == index) return index;
+                }
+            }
+
             // Point already exists.
-            if ((std::abs(point.x - points[index].coord.x) < 1e-6) &&
-                (std::abs(point.y - points[index].coord.y) < 1e-6))
+            else if ((std::abs(point.x - points[index].coord.x) < 1e-6) &&
+                     (std::abs(point.y - points[index].coord.y) < 1e-6))
             {
                 // Boundary point is already added, return index.
                 return index;
-- 
2.43.0

