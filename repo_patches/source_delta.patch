From 5b3eaed92bf13a9dadc145ed4b337a865617e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 01/16] fix: a grid node with a missing y coordinate is a
 missing node

---
 gridutils/gridnodes.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index a80c6c5..ba02dbf 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -131,13 +131,12 @@ gridnodes* gridnodes_read(char* fname, NODETYPE type)
         for (i = 0; i < gn->nx; ++i, ++xx, ++yy) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th point (%d x %d points expected)", fname, j * gn->nx + i + 1, gn->nx, gn->ny);
-            if (sscanf(buf, "%lf %lf", xx, yy) != 2) {
+            if (sscanf(buf, "%lf %lf", xx, yy) != 2 || isnan(*xx) || isnan(*yy)) {
                 *xx = NaN;
                 *yy = NaN;
                 continue;
             }
-            if (!isnan(*xx))
-                count++;
+            count++;
         }
     }
 
-- 
2.43.0


From 5b9a59efb305447b9ce8f96c3e2016efad6106a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 02/16] fix: refuse an empty index range in gridnodes_subgrid()

---
 gridutils/gridnodes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index ba02dbf..05e15dc 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -465,6 +465,9 @@ gridnodes* gridnodes_subgrid(gridnodes* gn, int imin, int imax, int jmin, int jm
     if (imin == 0 && imax == gn->nx - 1 && jmin == 0 && jmax == gn->ny - 1)
         return gridnodes_copy(gn);
 
+    if (imin > imax || jmin > jmax)
+        gu_quit("gridnodes_subgrid(): no nodes in the specified range for a %d x %d grid", gn->nx, gn->ny);
+
     new = calloc(1, sizeof(gridnodes));
 
     new->nx = imax - imin + 1;
-- 
2.43.0


From a2cbf2dadfb7bb589260ba2b8e28cb56d6affd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 03/16] fix: deviation from orthogonality uses the cosine of
 the angle, not half of it

---
 gridutils/gridnodes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 05e15dc..f09adb5 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -932,8 +932,8 @@ static void gridstats_init(gridstats* gs)
  */
 static double dtheta(double x1, double y1, double x2, double y2)
 {
-    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2) / 2.0;
-    double th = acos(cos_th) * 180.0 / M_PI;
+    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2);
+    double th = acos(fmax(-1.0, fmin(1.0, cos_th))) * 180.0 / M_PI;
     double dth = fabs(90.0 - th);
 
     return dth;
-- 
2.43.0


From 99c7dc7c07b73a3eb2f7249b312e1d07f09e9863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 04/16] fix: gridmap_fij2xy() fails on NaN indices instead of
 reading out of bounds

---
 gridutils/gridmap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 02796eb..31f85bb 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -146,6 +146,12 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
     double u, v;
     double a, b, c, d, e, f, g, h;
 
+    if (isnan(fi) || isnan(fj)) {
+        *x = NaN;
+        *y = NaN;
+        return 0;
+    }
+
     if (gm->type == GRIDMAP_TYPE_BINARY) {
         gx = gridbmap_getxnodes(gm->map);
         gy = gridbmap_getynodes(gm->map);
-- 
2.43.0


From 360fffadbe599f48cd642709c755f8ea4fcabcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 05/16] fix: poly_addpointat() shifts y coordinates, not x, and
 ignores a negative index

---
 gridutils/poly.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 91cbfc4..e3037a9 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -129,6 +129,9 @@ void poly_addpoint(poly* pl, double x, double y)
  */
 void poly_addpointat(poly* pl, int index, double x, double y)
 {
+    if (index < 0)
+        return;
+
     if (index > pl->n - 1) {
         poly_addpoint(pl, x, y);
         return;
@@ -141,7 +144,7 @@ void poly_addpointat(poly* pl, int index, double x, double y)
     }
 
     memmove(&pl->x[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
-    memmove(&pl->y[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
+    memmove(&pl->y[index + 1], &pl->y[index], (pl->n - index) * sizeof(double));
     pl->x[index] = x;
     pl->y[index] = y;
     pl->n++;
-- 
2.43.0


From 06f099900a24b388717e431824c622d05211b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 06/16] fix: poly_append() grows the storage, updates the size
 and the extent

---
 gridutils/poly.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index e3037a9..04332b9 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -160,8 +160,8 @@ void poly_append(poly* pl1, poly* pl2)
     int n = pl1->n + pl2->n;
     int sizechanged = 0;
 
-    while (n < pl1->nallocated) {
-        pl1->nallocated *= 2;
+    while (n > pl1->nallocated) {
+        pl1->nallocated = (pl1->nallocated > 0) ? pl1->nallocated * 2 : POLY_NSTART;
         sizechanged = 1;
     }
 
@@ -172,6 +172,8 @@ void poly_append(poly* pl1, poly* pl2)
 
     memcpy(&pl1->x[pl1->n], pl2->x, pl2->n * sizeof(double));
     memcpy(&pl1->y[pl1->n], pl2->y, pl2->n * sizeof(double));
+    pl1->n = n;
+    poly_recalcextent(pl1);
 }
 
 /** Computes the area of a polygon. 
-- 
2.43.0


From aab7fd1ece97c31408f2dd4261e9fd671eed91a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 07/16] fix: poly_area() is positive for a counterclockwise
 polygon, as documented

---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 04332b9..7b79468 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -192,7 +192,7 @@ double poly_area(poly* pl)
     for (i = 0; i < n; ++i) {
         int i1 = (i + 1) % n;
 
-        area += (x[i1] - x[i]) * (y[i1] + y[i]);
+        area += (x[i] - x[i1]) * (y[i1] + y[i]);
     }
 
     return area / 2.0;
-- 
2.43.0


From 35f63ae407b3cd48f6f13bcbc7d1378ddfff4fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 08/16] fix: a polyline compacted to nothing can grow again

---
 gridutils/poly.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 7b79468..0fbd4fd 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -109,9 +109,9 @@ void poly_addpoint(poly* pl, double x, double y)
         gu_quit("poly_addpoint(): NaN detected");
 
     if (pl->n == pl->nallocated) {
-        pl->x = realloc(pl->x, pl->nallocated * sizeof(double) * 2);
-        pl->y = realloc(pl->y, pl->nallocated * sizeof(double) * 2);
-        pl->nallocated *= 2;
+        pl->nallocated = (pl->nallocated > 0) ? pl->nallocated * 2 : POLY_NSTART;
+        pl->x = realloc(pl->x, pl->nallocated * sizeof(double));
+        pl->y = realloc(pl->y, pl->nallocated * sizeof(double));
     }
 
     pl->x[pl->n] = x;
@@ -138,9 +138,9 @@ void poly_addpointat(poly* pl, int index, double x, double y)
     }
 
     if (pl->n == pl->nallocated) {
-        pl->x = realloc(pl->x, pl->nallocated * sizeof(double) * 2);
-        pl->y = realloc(pl->y, pl->nallocated * sizeof(double) * 2);
-        pl->nallocated *= 2;
+        pl->nallocated = (pl->nallocated > 0) ? pl->nallocated * 2 : POLY_NSTART;
+        pl->x = realloc(pl->x, pl->nallocated * sizeof(double));
+        pl->y = realloc(pl->y, pl->nallocated * sizeof(double));
     }
 
     memmove(&pl->x[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
-- 
2.43.0


From 029545da2a65302ddd19965143fb55ffcc3755a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:01 +0000
Subject: [PATCH 09/16] fix: do not search an empty kd-tree for the nearest
 node

Converting a grid of centres without a single complete 2 x 2 block of
nodes dereferenced the NULL storage of an empty kd-tree. An empty tree
now has no nearest node, and the converted nodes are missing.
---
 gridutils/gridnodes.c | 9 +++++----
 gridutils/kdtree.c    | 6 +++++-
 gridutils/kdtree.h    | 2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index f09adb5..b28ca9b 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -17,6 +17,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <stdint.h>
 #include <string.h>
 #include <stdarg.h>
 #include <limits.h>
@@ -689,9 +690,9 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
                     pos[0] = (double) i - 0.5;
                     pos[1] = (double) j - 0.5;
                     nearest = kd_findnearestnode(kt, pos);
-                    pos1 = kd_getnodecoords(kt, nearest);
+                    pos1 = (nearest != SIZE_MAX) ? kd_getnodecoords(kt, nearest) : NULL;
 
-                    if (hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
+                    if (pos1 != NULL && hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
                         fij2xy(gn, pos[0], pos[1], (int) pos1[0], (int) pos1[1], &gn1->gx[j][i], &gn1->gy[j][i]);
                     } else {
                         gn1->gx[j][i] = NaN;
@@ -757,9 +758,9 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
                     pos[0] = (double) i / 2.0 - 0.5;
                     pos[1] = (double) j / 2.0 - 0.5;
                     nearest = kd_findnearestnode(kt, pos);
-                    pos1 = kd_getnodecoords(kt, nearest);
+                    pos1 = (nearest != SIZE_MAX) ? kd_getnodecoords(kt, nearest) : NULL;
 
-                    if (hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
+                    if (pos1 != NULL && hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
                         fij2xy(gn, pos[0], pos[1], (int) pos1[0], (int) pos1[1], &gn1->gx[j][i], &gn1->gy[j][i]);
                     } else {
                         gn1->gx[j][i] = NaN;
diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 37c1906..f80633e 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -409,11 +409,15 @@ static void _kd_findnearestnode(const kdtree* tree, const size_t nodeid, const d
 size_t kd_findnearestnode(const kdtree* tree, const double* coords)
 {
     int ndim = tree->ndim;
-    double* minmax = malloc(ndim * 2 * sizeof(double));
+    double* minmax;
     size_t result;
     double dist;
     int i;
 
+    if (tree->nnodes == 0)
+        return SIZE_MAX;
+
+    minmax = malloc(ndim * 2 * sizeof(double));
     for (i = 0; i < ndim * 2; ++i)
         minmax[i] = tree->min[i];
 
diff --git a/gridutils/kdtree.h b/gridutils/kdtree.h
index b060b97..7f99649 100644
--- a/gridutils/kdtree.h
+++ b/gridutils/kdtree.h
@@ -49,7 +49,7 @@ size_t kd_getsize(kdtree* tree);
  */
 kdset* kd_findnodeswithinrange(const kdtree* tree, const double* coords, double range, int ordered);
 
-/* find the nearest node
+/* find the nearest node (SIZE_MAX for an empty tree)
  */
 size_t kd_findnearestnode(const kdtree* tree, const double* coords);
 
-- 
2.43.0


From 65c50066498b37553de9dc13308bb865918f8018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:02 +0000
Subject: [PATCH 10/16] fix: keep the root of a kd-tree that grows to 1024
 nodes

kd_insertnode() took an allocation of NALLOCSTART nodes for a new tree
and dropped the root when a tree bulk-loaded with 512 nodes was extended.
---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index f80633e..fffed01 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -135,7 +135,7 @@ void kd_insertnode(kdtree* tree, const double* coords, size_t id_orig)
             tree->nallocated = NALLOCSTART;
         tree->nodes = realloc(tree->nodes, tree->nallocated * sizeof(kdnode));
         tree->coords = realloc(tree->coords, tree->nallocated * tree->ndim * sizeof(double));
-        if (tree->nallocated == NALLOCSTART)
+        if (tree->nnodes == 0)
             tree->nodes[0].id = SIZE_MAX;
     }
 
-- 
2.43.0


From 67afaf4190184c5ac1787d87e8185ed26fc0714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 11/16] fix: find kd-tree nodes at exactly the range on the far
 side of a split

Nodes at a distance equal to the range are part of the result, but the
far subtree was skipped when the splitting line was that far away. Also
return no nodes from an empty tree instead of reading unset storage.
---
 gridutils/kdtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index fffed01..1482c00 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -299,7 +299,7 @@ static int _kd_findnodeswithinrange(const kdtree* tree, int id, const double* co
 
     dx = coords[node->dir] - nodecoords[node->dir];
     ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->left : node->right, coords, range, set, ordered);
-    if (fabs(dx) < range) {
+    if (fabs(dx) <= range) {
         added_res += ret;
         ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->right : node->left, coords, range, set, ordered);
     }
@@ -319,7 +319,7 @@ kdset* kd_findnodeswithinrange(const kdtree* tree, const double* coords, double
     rset->root = NULL;
     rset->size = 0;
 
-    ret = _kd_findnodeswithinrange(tree, 0, coords, range, rset, ordered);
+    ret = _kd_findnodeswithinrange(tree, (tree->nnodes > 0) ? 0 : -1, coords, range, rset, ordered);
     rset->size = ret;
 
     return rset;
-- 
2.43.0


From e02af7e416eb7e1069417c73054ed76ef181d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:58 +0000
Subject: [PATCH 12/16] fix: gu_readmask(): accept a last line without a
 newline and do not write before an empty buffer

---
 gridutils/gucommon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 928675e..8998141 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -132,7 +132,7 @@ int** gu_readmask(char* fname, int nx, int ny)
         for (i = 0; i < nx; ++i) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th mask value (%d x %d values expected)", fname, j * nx + i + 1, nx, ny);
-            buf[strlen(buf) - 1] = 0;
+            buf[strcspn(buf, "\n")] = 0;
             if (strcmp(buf, "0") == 0)
                 v[j][i] = 0;
             else if (strcmp(buf, "1") == 0) {
-- 
2.43.0


From bce9dbab2052378f3e137c8532e05fe54c676a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:26 +0000
Subject: [PATCH 13/16] fix: insertgrid: do not read one node past the end of a
 row

---
 gridutils/insertgrid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index ac13a82..585768a 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -209,13 +209,13 @@ int main(int argc, char* argv[])
     if (!merge) {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
 
                 if (ok2) {
                     gx3[j3][i3] = gx2[j2][i2];
                     gy3[j3][i3] = gy2[j2][i2];
                 } else {
-                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                     if (ok1) {
                         gx3[j3][i3] = gx1[j1][i1];
@@ -230,8 +230,8 @@ int main(int argc, char* argv[])
     } else {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
-                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
+                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                 if (!ok2 && !ok1) {
                     gx3[j3][i3] = NaN;
-- 
2.43.0


From 2ea939dbe6f7f6e1c72720c647dbc6e465eb6364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:28 +0000
Subject: [PATCH 14/16] fix: do not look past the last row or column when
 validating double density nodes of even size

---
 gridutils/gridnodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index b28ca9b..c21f877 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -308,7 +308,7 @@ static void gridnodes_validate_dd(gridnodes* gn)
         for (i = 1; i < nx; i += 2) {
             if (isnan(x[j][i]))
                 continue;
-            if (isnan(x[j - 1][i - 1]) || isnan(x[j - 1][i + 1]) || isnan(x[j + 1][i - 1]) || isnan(x[j + 1][i + 1])) {
+            if (isnan(x[j - 1][i - 1]) || (i + 1 < nx && isnan(x[j - 1][i + 1])) || (j + 1 < ny && isnan(x[j + 1][i - 1])) || (j + 1 < ny && i + 1 < nx && isnan(x[j + 1][i + 1]))) {
                 x[j][i] = NaN;
                 y[j][i] = NaN;
                 count++;
-- 
2.43.0


From d49659e6b995c170eb9a1b93a16c4d2dc6ad3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 15/16] fix: setbathy without a value prints the usage instead
 of writing "(null)"

---
 gridutils/setbathy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 0a3a6ed..a9cbe1d 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -115,7 +115,7 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* imin, i
     if (gu_verbose && argc == 2)
         version();
 
-    if (*fname == NULL)
+    if (*fname == NULL || *z == NULL)
         usage();
 }
 
-- 
2.43.0


From 2c16aad846e441cc73f346615e9cea468ac05b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 16/16] fix: gu_alloc2d() reports its sizes with the right
 conversion

---
 gridutils/gucommon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 8998141..f1f3cb1 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -85,7 +85,7 @@ void* gu_alloc2d(size_t nj, size_t ni, size_t unitsize)
     int i;
 
     if (ni <= 0 || nj <= 0)
-        gu_quit("gu_alloc2d(): invalid size (nj = %d, ni = %d)", nj, ni);
+        gu_quit("gu_alloc2d(): invalid size (nj = %zu, ni = %zu)", nj, ni);
 
     size = nj * sizeof(void*) + nj * ni * unitsize;
     if ((p = malloc(size)) == NULL) {
-- 
2.43.0

