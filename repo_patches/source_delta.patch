From 247458cbf784f6aca194ef64025a41a543609635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:40 +0000
Subject: [PATCH 01/52] fix: insertgrid: column range checks were off by one

The tests on i1 and i2 accepted nx1 and nx2, so that the column to the right
of the inserted grid was overwritten with the first node of its next row, and
nodes behind the end of the arrays were read.
---
 gridutils/insertgrid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index ac13a82..585768a 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -209,13 +209,13 @@ int main(int argc, char* argv[])
     if (!merge) {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
 
                 if (ok2) {
                     gx3[j3][i3] = gx2[j2][i2];
                     gy3[j3][i3] = gy2[j2][i2];
                 } else {
-                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                     if (ok1) {
                         gx3[j3][i3] = gx1[j1][i1];
@@ -230,8 +230,8 @@ int main(int argc, char* argv[])
     } else {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
-                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
+                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                 if (!ok2 && !ok1) {
                     gx3[j3][i3] = NaN;
-- 
2.43.0


From 1ae9728469cff4c1f8e95c4dcb21dc1b44c5642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 02/52] fix: gridnodes_subgrid(): refuse an empty index range

A reversed range, or one that lies outside the grid, led to negative sizes and
to writing behind the allocated arrays.
---
 gridutils/gridnodes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index a80c6c5..b23a7bd 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -463,6 +463,9 @@ gridnodes* gridnodes_subgrid(gridnodes* gn, int imin, int imax, int jmin, int jm
     if (jmax >= gn->ny)
         jmax = gn->ny - 1;
 
+    if (imin > imax || jmin > jmax)
+        gu_quit("gridnodes_subgrid(): empty index range");
+
     if (imin == 0 && imax == gn->nx - 1 && jmin == 0 && jmax == gn->ny - 1)
         return gridnodes_copy(gn);
 
-- 
2.43.0


From a0b4000fead833275a97616dceb4a15427ff1e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 03/52] fix: poly_addpointat(): Y coordinates were overwritten
 with X coordinates

Also take no action for a negative index, as documented.
---
 gridutils/poly.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 91cbfc4..d04299a 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -129,6 +129,8 @@ void poly_addpoint(poly* pl, double x, double y)
  */
 void poly_addpointat(poly* pl, int index, double x, double y)
 {
+    if (index < 0)
+        return;
     if (index > pl->n - 1) {
         poly_addpoint(pl, x, y);
         return;
@@ -141,7 +143,7 @@ void poly_addpointat(poly* pl, int index, double x, double y)
     }
 
     memmove(&pl->x[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
-    memmove(&pl->y[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
+    memmove(&pl->y[index + 1], &pl->y[index], (pl->n - index) * sizeof(double));
     pl->x[index] = x;
     pl->y[index] = y;
     pl->n++;
-- 
2.43.0


From 4b7050a2dad359944d8e15459c54e4e752300e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 04/52] fix: poly_append(): the points were not appended

The growth condition was inverted, so that the points of the source were
copied behind the end of the arrays, and neither the number of points nor the
extent of the destination were updated.
---
 gridutils/poly.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index d04299a..510c4e6 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -159,7 +159,7 @@ void poly_append(poly* pl1, poly* pl2)
     int n = pl1->n + pl2->n;
     int sizechanged = 0;
 
-    while (n < pl1->nallocated) {
+    while (n > pl1->nallocated) {
         pl1->nallocated *= 2;
         sizechanged = 1;
     }
@@ -171,6 +171,8 @@ void poly_append(poly* pl1, poly* pl2)
 
     memcpy(&pl1->x[pl1->n], pl2->x, pl2->n * sizeof(double));
     memcpy(&pl1->y[pl1->n], pl2->y, pl2->n * sizeof(double));
+    pl1->n = n;
+    poly_recalcextent(pl1);
 }
 
 /** Computes the area of a polygon. 
-- 
2.43.0


From cbd0ef5aedc5354841ecd0fa878b4e83f04ba5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 05/52] fix: poly_area(): sign was opposite to the documented
 one

---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 510c4e6..7c9ef39 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -191,7 +191,7 @@ double poly_area(poly* pl)
     for (i = 0; i < n; ++i) {
         int i1 = (i + 1) % n;
 
-        area += (x[i1] - x[i]) * (y[i1] + y[i]);
+        area += (x[i] - x[i1]) * (y[i1] + y[i]);
     }
 
     return area / 2.0;
-- 
2.43.0


From a58c4bb1ac1bf539f8851488c897616a57385fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:08 +0000
Subject: [PATCH 06/52] fix: kd_insertnode(): do not reset the root of a
 non-empty tree

When the storage of a tree filled by kd_insertnodes() grew to exactly
NALLOCSTART nodes, the root was reset and the tree content lost.
---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 37c1906..db33ecc 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -135,7 +135,7 @@ void kd_insertnode(kdtree* tree, const double* coords, size_t id_orig)
             tree->nallocated = NALLOCSTART;
         tree->nodes = realloc(tree->nodes, tree->nallocated * sizeof(kdnode));
         tree->coords = realloc(tree->coords, tree->nallocated * tree->ndim * sizeof(double));
-        if (tree->nallocated == NALLOCSTART)
+        if (tree->nnodes == 0)
             tree->nodes[0].id = SIZE_MAX;
     }
 
-- 
2.43.0


From 635591879df7ea0e675da7aadb61a661014e5e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:09 +0000
Subject: [PATCH 07/52] fix: kd_findnodeswithinrange(): missed nodes exactly at
 the range

The search includes the nodes at distance equal to the range, but did not
visit the other side of a splitting node at exactly this distance (so that
e.g. with zero range only some of coinciding nodes were found). Also return
an empty set for an empty tree.
---
 gridutils/kdtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index db33ecc..4bb3a6b 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -299,7 +299,7 @@ static int _kd_findnodeswithinrange(const kdtree* tree, int id, const double* co
 
     dx = coords[node->dir] - nodecoords[node->dir];
     ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->left : node->right, coords, range, set, ordered);
-    if (fabs(dx) < range) {
+    if (fabs(dx) <= range) {
         added_res += ret;
         ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->right : node->left, coords, range, set, ordered);
     }
@@ -319,7 +319,7 @@ kdset* kd_findnodeswithinrange(const kdtree* tree, const double* coords, double
     rset->root = NULL;
     rset->size = 0;
 
-    ret = _kd_findnodeswithinrange(tree, 0, coords, range, rset, ordered);
+    ret = (tree->nnodes > 0) ? _kd_findnodeswithinrange(tree, 0, coords, range, rset, ordered) : 0;
     rset->size = ret;
 
     return rset;
-- 
2.43.0


From 4e475fb42a3c15c288906aafae88242f1f61dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:11 +0000
Subject: [PATCH 08/52] fix: gridnodes_transform(): no complete block of valid
 cell centres

Conversion of cell centres searched an empty kd-tree and crashed if there was
no 2x2 block of valid centres (e.g. for a single row of cells).
---
 gridutils/gridnodes.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index b23a7bd..0fed6b9 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -684,15 +684,17 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
             for (j = 0; j < gn1->ny; ++j) {
                 for (i = 0; i < gn1->nx; ++i) {
                     double pos[2];
-                    double* pos1;
+                    double* pos1 = NULL;
                     size_t nearest;
 
                     pos[0] = (double) i - 0.5;
                     pos[1] = (double) j - 0.5;
-                    nearest = kd_findnearestnode(kt, pos);
-                    pos1 = kd_getnodecoords(kt, nearest);
+                    if (kd_getsize(kt) > 0) {
+                        nearest = kd_findnearestnode(kt, pos);
+                        pos1 = kd_getnodecoords(kt, nearest);
+                    }
 
-                    if (hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
+                    if (pos1 != NULL && hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
                         fij2xy(gn, pos[0], pos[1], (int) pos1[0], (int) pos1[1], &gn1->gx[j][i], &gn1->gy[j][i]);
                     } else {
                         gn1->gx[j][i] = NaN;
@@ -752,15 +754,17 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
             for (j = 0; j < gn1->ny; ++j) {
                 for (i = 0; i < gn1->nx; ++i) {
                     double pos[2];
-                    double* pos1;
+                    double* pos1 = NULL;
                     size_t nearest;
 
                     pos[0] = (double) i / 2.0 - 0.5;
                     pos[1] = (double) j / 2.0 - 0.5;
-                    nearest = kd_findnearestnode(kt, pos);
-                    pos1 = kd_getnodecoords(kt, nearest);
+                    if (kd_getsize(kt) > 0) {
+                        nearest = kd_findnearestnode(kt, pos);
+                        pos1 = kd_getnodecoords(kt, nearest);
+                    }
 
-                    if (hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
+                    if (pos1 != NULL && hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
                         fij2xy(gn, pos[0], pos[1], (int) pos1[0], (int) pos1[1], &gn1->gx[j][i], &gn1->gy[j][i]);
                     } else {
                         gn1->gx[j][i] = NaN;
-- 
2.43.0


From dc14a0fb50d1f93cc44aad2851ba08be0a336ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 09/52] fix: gridmap_fij2xy(): NaN indices crashed

---
 gridutils/gridmap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 02796eb..ef6fe00 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -158,6 +158,12 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
         nce2 = gridkmap_getnce2(gm->map);
     }
 
+    if (isnan(fi) || isnan(fj)) {
+        *x = NaN;
+        *y = NaN;
+        return 0;
+    }
+
     /*
      * Trim I to range 0 to nce1 
      */
-- 
2.43.0


From e3be943461328972ad139d81a8b23ca512b9cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:13 +0000
Subject: [PATCH 10/52] fix: gridmap_fij2xy(): read behind the nodes of a grid
 with no cells

---
 gridutils/gridmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index ef6fe00..686c8b5 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -173,7 +173,7 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
     }
 
     if (fi > nce1) {
-        fi = nce1 - EPS;
+        fi = (nce1 > 0) ? nce1 - EPS : 0.0;
         status = 0;
     }
 
@@ -186,7 +186,7 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
     }
 
     if (fj > nce2) {
-        fj = nce2 - EPS;
+        fj = (nce2 > 0) ? nce2 - EPS : 0.0;
         status = 0;
     }
 
-- 
2.43.0


From 5d9a7ddafb44fe818278897682c3caba97ee4bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 11/52] fix: gu_readmask(): last line without newline, line
 starting with NUL

The last character of a line was removed even if it was not a newline; for a
line starting with NUL a byte before the buffer was written.
---
 gridutils/gucommon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 928675e..8998141 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -132,7 +132,7 @@ int** gu_readmask(char* fname, int nx, int ny)
         for (i = 0; i < nx; ++i) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th mask value (%d x %d values expected)", fname, j * nx + i + 1, nx, ny);
-            buf[strlen(buf) - 1] = 0;
+            buf[strcspn(buf, "\n")] = 0;
             if (strcmp(buf, "0") == 0)
                 v[j][i] = 0;
             else if (strcmp(buf, "1") == 0) {
-- 
2.43.0


From 0b897267e598cd56a132d325dfd1ded482feb25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 12/52] fix: gridnodes_read(): a node with NaN in Y only was
 taken for a valid one

Nodes with NaN coordinates are documented to be invalid.
---
 gridutils/gridnodes.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 0fed6b9..35fa02a 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -131,13 +131,12 @@ gridnodes* gridnodes_read(char* fname, NODETYPE type)
         for (i = 0; i < gn->nx; ++i, ++xx, ++yy) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th point (%d x %d points expected)", fname, j * gn->nx + i + 1, gn->nx, gn->ny);
-            if (sscanf(buf, "%lf %lf", xx, yy) != 2) {
+            if (sscanf(buf, "%lf %lf", xx, yy) != 2 || isnan(*xx) || isnan(*yy)) {
                 *xx = NaN;
                 *yy = NaN;
                 continue;
             }
-            if (!isnan(*xx))
-                count++;
+            count++;
         }
     }
 
-- 
2.43.0


From f377d903f629b85561af53716cd82f06297553cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 13/52] fix: dtheta(): wrong deviation from orthogonality

The cosine of the angle between two vectors was halved, so that the deviation
reported never exceeded 30 degrees.
---
 gridutils/gridnodes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 35fa02a..42ab415 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -936,8 +936,8 @@ static void gridstats_init(gridstats* gs)
  */
 static double dtheta(double x1, double y1, double x2, double y2)
 {
-    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2) / 2.0;
-    double th = acos(cos_th) * 180.0 / M_PI;
+    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2);
+    double th = acos(fmax(-1.0, fmin(1.0, cos_th))) * 180.0 / M_PI;
     double dth = fabs(90.0 - th);
 
     return dth;
-- 
2.43.0


From 59c8244e3b2151ec3f0131c6b1c884129188cebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:00 +0000
Subject: [PATCH 14/52] fix: gridmap_xy2fij(): accuracy depended on the units
 of coordinates

The choice between the exact and the approximate solution compared a quantity
of dimension of area with a fixed threshold: for small cells (e.g. in degrees)
the approximation was used for cells far from parallelograms, while for large
cells the exact solution was used when it suffered from cancellation. Make the
comparison relative; select the denominator in calc_branch() in the same way
as in gridmap_xy2fij().
---
 gridutils/gridmap.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 686c8b5..444086d 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -267,19 +267,20 @@ static int calc_branch(gridmap* gm, double x, double y)
         double B, C;
         int k;
 
+        B = e * x - a * y + a * h - d * e + c * f - b * g;
+        C = g * x - c * y + c * h - d * g;
+
         /*
          * normally one checks A before calling calc_branch() 
          */
-        if (fabs(A) < EPS_ZERO)
+        if (fabs(A * C) < EPS_ZERO * B * B)
             return 0;           /* failed */
 
-        B = e * x - a * y + a * h - d * e + c * f - b * g;
-        C = g * x - c * y + c * h - d * g;
-
         for (k = 0; k < 2; ++k) {
             double u = (-B + sign * sqrt(B * B - 4.0 * A * C)) / (2.0 * A);
-            double v_denom = a * u + c;
-            double v = (fabs(v_denom) < EPS_ZERO) ? (y - f * u - h) / (e * u + g) : (x - b * u - d) / v_denom;
+            double d1 = a * u + c;
+            double d2 = e * u + g;
+            double v = (fabs(d2) > fabs(d1)) ? (y - f * u - h) / d2 : (x - b * u - d) / d1;
 
             error[k] = 0.0;
 
@@ -353,7 +354,7 @@ int gridmap_xy2fij(gridmap* gm, double x, double y, double* fi, double* fj)
 
         double u, v, d1, d2;
 
-        if (fabs(A) < EPS_ZERO)
+        if (fabs(A * C) < EPS_ZERO * B * B)
             u = -C / B * (1.0 + A * C / B / B);
         else {
             if (gm->sign == 0) {
-- 
2.43.0


From c34830929a0f5d60c2ed03f0604291907c3a0c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 15/52] fix: subgrid_divide(): integer overflow for a grid with
 no valid cells

---
 gridutils/gridbmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index 2ab20ec..487196a 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -332,7 +332,7 @@ static void subgrid_divide(subgrid* sg, subgrid** sg1, subgrid** sg2)
     gridbmap* gm = sg->gmap;
     int index;
 
-    if ((sg->maxi <= sg->mini + 1) && (sg->maxj <= sg->minj + 1)) {
+    if (sg->bound->n == 0 || ((sg->maxi <= sg->mini + 1) && (sg->maxj <= sg->minj + 1))) {
         *sg1 = *sg2 = NULL;
         return;
     }
-- 
2.43.0


From 52ad1a5eab8a1daafc48e519d74568699d130641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 16/52] fix: refuse double density grids of even size

gridnodes_read() does, but such a grid could be obtained by insertgrid or
gridnodes_subgrid(), and was then accessed behind its end in validation.
---
 gridutils/gridnodes.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 42ab415..f8eb8ca 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -257,6 +257,15 @@ void gridnodes_destroy(gridnodes* gn)
  * grid).
  */
 
+/** Checks that double density grid has odd number of nodes in each direction.
+ * @param gn Grid nodes
+ */
+static void gridnodes_checksize_dd(gridnodes* gn)
+{
+    if (gn->nx % 2 == 0 || gn->ny % 2 == 0)
+        gu_quit("double density grid nodes: nx = %d, ny = %d: both must be odd", gn->nx, gn->ny);
+}
+
 /** Validates double density grid nodes.
  * @param gn Grid nodes
  */
@@ -407,9 +416,10 @@ void gridnodes_validate(gridnodes* gn)
 {
     if (gu_verbose)
         fprintf(stderr, "## grid validation:\n");
-    if (gn->type == NT_DD)
+    if (gn->type == NT_DD) {
+        gridnodes_checksize_dd(gn);
         gridnodes_validate_dd(gn);
-    else if (gn->type == NT_COR)
+    } else if (gn->type == NT_COR)
         gridnodes_validate_cor(gn);
     else if (gu_verbose)
         fprintf(stderr, "## gridnodes_validate(): nothing to do for nodes of \"%s\" type\n", nodetype2str[gn->type]);
@@ -794,6 +804,8 @@ void gridnodes_applymask(gridnodes* gn, int** mask)
         int ny = gn->ny;
         int i, j, ii, jj;
 
+        gridnodes_checksize_dd(gn);
+
         for (j = 1, jj = 0; j < ny; j += 2, ++jj) {
             for (i = 1, ii = 0; i < nx; i += 2, ++ii) {
                 if (mask[jj][ii] == 0) {
-- 
2.43.0


From 750f9fe399dfa9b8b1b01264af268ec6afdace51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 17/52] fix: setbathy: refuse to run with no value specified

It wrote "(null)" into the output.
---
 gridutils/setbathy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 0a3a6ed..99223c1 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -117,6 +117,8 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* imin, i
 
     if (*fname == NULL)
         usage();
+    if (*z == NULL)
+        gu_quit("no value specified; use \"-z <value>\"");
 }
 
 /**
-- 
2.43.0


From 6794f82c294770fe7ec3e3a76503c56a9b374bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 18/52] fix: boundary could go along an edge that belongs to no
 valid cell

Two adjacent valid nodes may belong to different cells, with invalid cells on
both sides of the edge between them, e.g. at the rim of a bay. Such an edge was
taken for a part of the boundary (or for a cut of the grid), so that the bay
was assumed to belong to the grid, and its mapping failed.
---
 gridutils/gridbmap.c | 15 +++++++++------
 gridutils/poly.c     | 30 ++++++++++++++++++++++++++++--
 gridutils/poly.h     |  1 +
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index 487196a..c6fae5d 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -163,6 +163,8 @@ static void subgrid_destroy(subgrid* l)
  * @param pl Original polygon
  * @param gx Array of x cell corner coordinates
  * @param gy Array of y cell corner coordinates
+ * @param nce1 Number of cells in e1 direction
+ * @param nce2 Number of cells in e2 direction
  * @param horiz flag: 1 for horizontal cut; 0 otherwise
  * @param index Value of "fixed" index
  * @param start Start value of "variable" index
@@ -170,7 +172,7 @@ static void subgrid_destroy(subgrid* l)
  * @param pl1 Output polygon 1
  * @param pl1 Output polygon 2
  */
-static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int index, int start, int end, poly** pl1, poly** pl2)
+static void cut_boundary(poly* pl, int nce1, int nce2, double** gx, double** gy, int horiz, int index, int start, int end, poly** pl1, poly** pl2)
 {
     int n = pl->n;
     int i = -1;
@@ -201,10 +203,11 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
              * this node belongs to the boundary polygon To accept it as a
              * valid intersection, we must ensure that the very next node is 
              * either inside the polygon or belongs to the boundary but is
-             * not the next boundary node. 
+             * not the next boundary node, and is connected by an edge of a
+             * valid cell. 
              */
             tmp = poly_findindex(pl, gx[index][i + 1], gy[index][i + 1]);
-            if ((tmp < 0 && poly_containspoint(pl, gx[index][i + 1], gy[index][i + 1])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1))
+            if ((tmp < 0 && poly_containspoint(pl, gx[index][i + 1], gy[index][i + 1])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1 && poly_isvalidedge(nce1, nce2, gx, i, index, i + 1, index)))
                 break;
         }
 
@@ -274,7 +277,7 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
             if (ii1 < 0)
                 continue;
             tmp = poly_findindex(pl, gx[i + 1][index], gy[i + 1][index]);
-            if ((tmp < 0 && poly_containspoint(pl, gx[i + 1][index], gy[i + 1][index])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1))
+            if ((tmp < 0 && poly_containspoint(pl, gx[i + 1][index], gy[i + 1][index])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1 && poly_isvalidedge(nce1, nce2, gx, index, i, index, i + 1)))
                 break;
         }
 
@@ -342,13 +345,13 @@ static void subgrid_divide(subgrid* sg, subgrid** sg1, subgrid** sg2)
          * divide "vertically" 
          */
         index = (sg->mini + sg->maxi) / 2;
-        cut_boundary(sg->bound, gm->gx, gm->gy, 0, index, sg->minj, sg->maxj, &pl1, &pl2);
+        cut_boundary(sg->bound, gm->nce1, gm->nce2, gm->gx, gm->gy, 0, index, sg->minj, sg->maxj, &pl1, &pl2);
     } else {
         /*
          * divide "horizontally" 
          */
         index = (sg->minj + sg->maxj) / 2;
-        cut_boundary(sg->bound, gm->gx, gm->gy, 1, index, sg->mini, sg->maxi, &pl1, &pl2);
+        cut_boundary(sg->bound, gm->nce1, gm->nce2, gm->gx, gm->gy, 1, index, sg->mini, sg->maxi, &pl1, &pl2);
     }
 
     if (pl1 == NULL || pl2 == NULL)
diff --git a/gridutils/poly.c b/gridutils/poly.c
index 7c9ef39..07fdbe3 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -371,6 +371,32 @@ int poly_findindex(poly* pl, double x, double y)
     return -1;
 }
 
+/** Tests whether an edge between two adjacent grid nodes belongs to at least
+ * one valid cell. (Two adjacent valid nodes can belong to different valid
+ * cells, with no valid cell on either side of the edge.)
+ * @param nce1 Number of cells in X direction
+ * @param nce2 Number of cells in Y direction
+ * @param x X coordinates of grid nodes
+ * @param i1 I index of the first node
+ * @param j1 J index of the first node
+ * @param i2 I index of the second node
+ * @param j2 J index of the second node
+ * @return 1 for yes, 0 for no
+ */
+int poly_isvalidedge(int nce1, int nce2, double** x, int i1, int j1, int i2, int j2)
+{
+    int imin = (i1 < i2) ? i1 : i2;
+    int jmin = (j1 < j2) ? j1 : j2;
+    int i, j;
+
+    for (j = (j1 == j2) ? jmin - 1 : jmin; j <= jmin; ++j)
+        for (i = (i1 == i2) ? imin - 1 : imin; i <= imin; ++i)
+            if (i >= 0 && i < nce1 && j >= 0 && j < nce2 && !isnan(x[j][i]) && !isnan(x[j][i + 1]) && !isnan(x[j + 1][i]) && !isnan(x[j + 1][i + 1]))
+                return 1;
+
+    return 0;
+}
+
 /** Forms polyline boundary around a grid.
  * Note: supposed to handle a grid of corner nodes only.
  * @param nce1 Number of cells in X direction
@@ -408,7 +434,7 @@ poly* poly_formbound(int nce1, int nce2, double** x, double** y)
         inext = i + iinc[direction];
         jnext = j + jinc[direction];
 
-        while ((inext < 0 || jnext < 0 || inext > nce1 || jnext > nce2 || isnan(x[jnext][inext])) && direction != direction_stop) {
+        while ((inext < 0 || jnext < 0 || inext > nce1 || jnext > nce2 || !poly_isvalidedge(nce1, nce2, x, i, j, inext, jnext)) && direction != direction_stop) {
             direction = (direction + 1) % 4;
             inext = i + iinc[direction];
             jnext = j + jinc[direction];
@@ -464,7 +490,7 @@ poly* poly_formboundij(int nce1, int nce2, double** x)
         inext = i + iinc[direction];
         jnext = j + jinc[direction];
 
-        while ((inext < 0 || jnext < 0 || inext > nce1 || jnext > nce2 || isnan(x[jnext][inext])) && direction != direction_stop) {
+        while ((inext < 0 || jnext < 0 || inext > nce1 || jnext > nce2 || !poly_isvalidedge(nce1, nce2, x, i, j, inext, jnext)) && direction != direction_stop) {
             direction = (direction + 1) % 4;
             inext = i + iinc[direction];
             jnext = j + jinc[direction];
diff --git a/gridutils/poly.h b/gridutils/poly.h
index 97b16dd..272992c 100644
--- a/gridutils/poly.h
+++ b/gridutils/poly.h
@@ -43,6 +43,7 @@ int poly_findindex(poly* pl, double x, double y);
 poly* poly_formbound(int nce1, int nce2, double** x, double** y);
 poly* poly_formboundij(int nce1, int nce2, double** x);
 int poly_isclosed(poly* pl, double eps);
+int poly_isvalidedge(int nce1, int nce2, double** x, int i1, int j1, int i2, int j2);
 int poly_read(poly* pl, FILE* fp);
 void poly_resample(poly* pl, double eps);
 void poly_reverse(poly* pl);
-- 
2.43.0


From 9e299b3c5ba0468becf74774f113a9b2ef0d320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 19/52] fix: gridbathy: refuse a cell outside the grid after -c

The node arrays were accessed out of bounds.
---
 gridutils/gridbathy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 7a832ba..52591e9 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -220,6 +220,8 @@ static void parse_commandline(int argc, char* argv[], char** bathyfname, char**
             if (i >= argc)
                 gu_quit("no cell <j> index found after -c");
             *jj = atof(argv[i]);
+            if (*ii < 0 || *jj < 0)
+                gu_quit("invalid cell index after -c");
             i++;
             break;
         case 'g':
@@ -350,6 +352,8 @@ int main(int argc, char* argv[])
      */
     gn = gridnodes_read(gridfname, nt);
     gridnodes_validate(gn);
+    if (i >= gridnodes_getnce1(gn) || j >= gridnodes_getnce2(gn))
+        gu_quit("cell (%d,%d) is outside the grid", i, j);
     /*
      * read mask
      */
-- 
2.43.0


From 26ad2687d25351241d0589a4eb8da67fe94d6d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 20/52] fix: gridbathy: averaging in index space took indices
 for coordinates

---
 gridutils/gridbathy.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 52591e9..55aa3a7 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -377,6 +377,13 @@ int main(int argc, char* argv[])
      */
     gm = gridmap_build(gridnodes_getnce1(gn), gridnodes_getnce2(gn), gridnodes_getx(gn), gridnodes_gety(gn), gridnodes_getmaptype(gn));
 
+    /*
+     * averaging over grid cells is the same in physical and index space, and
+     * uses the map to find the cells by physical coordinates 
+     */
+    if (rule == AVERAGE)
+        indexspace = 0;
+
     /*
      * convert bathymetry to index space if necessary 
      */
-- 
2.43.0


From f2af430aed56ce8a380c9db9774b938db8dc54e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 21/52] fix: poly_compact(): no storage left if all points were
 redundant

Adding a point afterwards wrote behind the end of the arrays.
---
 gridutils/poly.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 07fdbe3..e1b25dc 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -729,7 +729,7 @@ void poly_compact(poly* pl, double eps)
     }
 
     free(ids);
-    pl->x = realloc(pl->x, sizeof(double) * pl->n);
-    pl->y = realloc(pl->y, sizeof(double) * pl->n);
-    pl->nallocated = pl->n;
+    pl->nallocated = (pl->n > 0) ? pl->n : 1;
+    pl->x = realloc(pl->x, sizeof(double) * pl->nallocated);
+    pl->y = realloc(pl->y, sizeof(double) * pl->nallocated);
 }
-- 
2.43.0


From 3fee74c86fbf11915d0085e8fe680d835ab1cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:29 +0000
Subject: [PATCH 22/52] fix: poly_close(): an uninitialised point was added to
 an empty polyline

---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index e1b25dc..3c5f3fd 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -236,7 +236,7 @@ poly* poly_copy(poly* pl)
  */
 void poly_close(poly* pl)
 {
-    if (!poly_isclosed(pl, 0.0))
+    if (pl->n > 0 && !poly_isclosed(pl, 0.0))
         poly_addpoint(pl, pl->x[0], pl->y[0]);
 }
 
-- 
2.43.0


From e812ee33b81f92ce9b0576a25753c247f89fae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 23/52] fix: gu_alloc2d(): size overflow, e.g. for negative
 sizes

---
 gridutils/gucommon.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 8998141..5f5f975 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -15,6 +15,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <stdint.h>
 #include <string.h>
 #include <stdarg.h>
 #include <limits.h>
@@ -84,8 +85,8 @@ void* gu_alloc2d(size_t nj, size_t ni, size_t unitsize)
     void** pp;
     int i;
 
-    if (ni <= 0 || nj <= 0)
-        gu_quit("gu_alloc2d(): invalid size (nj = %d, ni = %d)", nj, ni);
+    if (ni <= 0 || nj <= 0 || ni > (SIZE_MAX / nj - sizeof(void*)) / unitsize)
+        gu_quit("gu_alloc2d(): invalid size (nj = %zu, ni = %zu)", nj, ni);
 
     size = nj * sizeof(void*) + nj * ni * unitsize;
     if ((p = malloc(size)) == NULL) {
-- 
2.43.0


From 3c309be9fdd7673aba5c185dc45b59929509caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 24/52] fix: tools reported success if the output could not be
 written

---
 gridutils/getbound.c  | 2 ++
 gridutils/gridbathy.c | 2 ++
 gridutils/gridnodes.c | 4 ++--
 gridutils/setbathy.c  | 2 ++
 gridutils/xy2ij.c     | 2 ++
 5 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gridutils/getbound.c b/gridutils/getbound.c
index 1974b27..afebb63 100644
--- a/gridutils/getbound.c
+++ b/gridutils/getbound.c
@@ -183,6 +183,8 @@ int main(int argc, char* argv[])
         poly_compact(pl, 1.0e-10);
 
     poly_write(pl, stdout);
+    if (fflush(stdout) != 0 || ferror(stdout))
+        gu_quit("error writing to standard output");
 
     poly_destroy(pl);
     gridnodes_destroy(gn);
diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 55aa3a7..3ac27ec 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -517,6 +517,8 @@ int main(int argc, char* argv[])
             }
         }
     }
+    if (fflush(stdout) != 0 || ferror(stdout))
+        gu_quit("error writing to standard output");
 
     /*
      * clean up, just because 
diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index f8eb8ca..9195875 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -924,10 +924,10 @@ void gridnodes_write(gridnodes* gn, char* fname, COORDTYPE ctype)
     if (gu_verbose)
         fprintf(stderr, "##   %d non-empty grid nodes (%.1f%%)\n", count, 100.0 * count / gn->nx / gn->ny);
 
+    if (fflush(f) != 0 || ferror(f))
+        gu_quit("%s: error writing grid nodes", fname);
     if (f != stdout)
         fclose(f);
-    else
-        fflush(stdout);
 }
 
 /**
diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 99223c1..93746c4 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -190,6 +190,8 @@ int main(int argc, char* argv[])
 
     while (fgets(buf, BUFSIZE, f) != NULL)
         fprintf(stdout, "%s", buf);
+    if (fflush(stdout) != 0 || ferror(stdout))
+        gu_quit("error writing to standard output");
 
     if (f == stdin)
         free(fname);
diff --git a/gridutils/xy2ij.c b/gridutils/xy2ij.c
index 778d20f..b2678ee 100644
--- a/gridutils/xy2ij.c
+++ b/gridutils/xy2ij.c
@@ -241,6 +241,8 @@ int main(int argc, char* argv[])
         } else
             printf("%s", buf);
     }
+    if (fflush(stdout) != 0 || ferror(stdout))
+        gu_quit("error writing to standard output");
     if (gu_verbose) {
         fprintf(stderr, "\n");
         fprintf(stderr, "## total mappings: %d\n", count);
-- 
2.43.0


From cba1da95cba9baac6ad14115d11410f279a93084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 25/52] fix: xy2ij, setbathy: a read error was taken for the
 end of input

---
 gridutils/setbathy.c | 2 ++
 gridutils/xy2ij.c    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 93746c4..490d5e2 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -190,6 +190,8 @@ int main(int argc, char* argv[])
 
     while (fgets(buf, BUFSIZE, f) != NULL)
         fprintf(stdout, "%s", buf);
+    if (ferror(f))
+        gu_quit("%s: error reading", fname);
     if (fflush(stdout) != 0 || ferror(stdout))
         gu_quit("error writing to standard output");
 
diff --git a/gridutils/xy2ij.c b/gridutils/xy2ij.c
index b2678ee..8e30c43 100644
--- a/gridutils/xy2ij.c
+++ b/gridutils/xy2ij.c
@@ -241,6 +241,8 @@ int main(int argc, char* argv[])
         } else
             printf("%s", buf);
     }
+    if (ferror(of))
+        gu_quit("%s: error reading", ofname);
     if (fflush(stdout) != 0 || ferror(stdout))
         gu_quit("error writing to standard output");
     if (gu_verbose) {
-- 
2.43.0


From 448d2018cf0d751eb2768cde903d1aac85d1859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 26/52] fix: gridbathy: cell indices after -c were read as
 floating point numbers

A value outside the range of int gave undefined behaviour, and a value that is
not a number was taken for 0.
---
 gridutils/gridbathy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 3ac27ec..923d6fd 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -215,11 +215,13 @@ static void parse_commandline(int argc, char* argv[], char** bathyfname, char**
             i++;
             if (i >= argc)
                 gu_quit("no cell <i> index found after -c");
-            *ii = atof(argv[i]);
+            if (!str2int(argv[i], ii))
+                gu_quit("could not read cell <i> index after -c");
             i++;
             if (i >= argc)
                 gu_quit("no cell <j> index found after -c");
-            *jj = atof(argv[i]);
+            if (!str2int(argv[i], jj))
+                gu_quit("could not read cell <j> index after -c");
             if (*ii < 0 || *jj < 0)
                 gu_quit("invalid cell index after -c");
             i++;
-- 
2.43.0


From cc8189bfeacc321a91a68a0abd8cc4456e7a867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 27/52] fix: insertgrid: integer overflow for a very big
 location index

---
 gridutils/insertgrid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index 585768a..cfcf9b3 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -186,6 +186,8 @@ int main(int argc, char* argv[])
     gx2 = gridnodes_getx(grid2);
     gy2 = gridnodes_gety(grid2);
 
+    if (i0 > INT_MAX - nx2 || j0 > INT_MAX - ny2)
+        gu_quit("insertgrid: location (%d,%d) is too big", i0, j0);
     nx3 = (i0 + nx2 > nx1) ? i0 + nx2 : nx1;
     ny3 = (j0 + ny2 > ny1) ? j0 + ny2 : ny1;
     grid3 = gridnodes_create(nx3, ny3, type);
-- 
2.43.0


From 66a6e545e5826e09250298bfa8c1df2e84c60d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 28/52] fix: gridbathy: help had the rules 1 and 2 of -a the
 other way round

---
 gridutils/gridbathy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 923d6fd..59499c1 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -93,8 +93,8 @@ static void info()
     printf("                   [-x]\n");
     printf("  Where:\n");
     printf("    -a 0                 -- use bivariate cubic spline approximation (default)\n");
-    printf("    -a 1                 -- use non-Sibsonian Natural Neighbours interpolation\n");
-    printf("    -a 2                 -- use Sibson Natural Neighbours interpolation\n");
+    printf("    -a 1                 -- use Sibson Natural Neighbours interpolation\n");
+    printf("    -a 2                 -- use non-Sibsonian Natural Neighbours interpolation\n");
     printf("    -a 3                 -- use linear interpolation\n");
     printf("    -a 4                 -- use averaging\n");
     printf("    -b <data file>       -- three-column (X Y Z) data file (use \"stdin\" or \"-\"\n");
-- 
2.43.0


From eaf1d29a54a50db8b11cd4dacd9cc66a8174d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 29/52] fix: poly_compact(): the extent was not updated

---
 gridutils/poly.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 3c5f3fd..7000e38 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -726,6 +726,7 @@ void poly_compact(poly* pl, double eps)
             y[i] = y[ids[i]];
         }
         pl->n = nnew;
+        poly_recalcextent(pl);
     }
 
     free(ids);
-- 
2.43.0


From 659a08ec3660ce8689c3bdfaadc81f3b565a054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 30/52] fix: gridbmap_xy2ij(): points at the outline could be
 put in a remote cell

Because of rounding a point at the grid outline, e.g. a grid node, can be
out of both halves of a subgrid, while only one of them was tested.
---
 gridutils/gridbmap.c | 55 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index c6fae5d..ab72773 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -424,6 +424,50 @@ void gridbmap_destroy(gridbmap* gm)
     free(gm);
 }
 
+/** Finds the leaf with the boundary nearest to a point.
+ * @param sg Subgrid to search in
+ * @param x X coordinate
+ * @param y Y coordinate
+ * @param dist Squared distance to the nearest leaf so far (input/output)
+ * @param leaf Nearest leaf so far (input/output)
+ */
+static void subgrid_findnearestleaf(subgrid* sg, double x, double y, double* dist, subgrid** leaf)
+{
+    poly* pl = sg->bound;
+    double dx = (x < pl->e.xmin) ? pl->e.xmin - x : ((x > pl->e.xmax) ? x - pl->e.xmax : 0.0);
+    double dy = (y < pl->e.ymin) ? pl->e.ymin - y : ((y > pl->e.ymax) ? y - pl->e.ymax : 0.0);
+    int i, i1;
+
+    if (dx * dx + dy * dy >= *dist)
+        return;
+
+    if (sg->half1 != NULL) {
+        subgrid_findnearestleaf(sg->half1, x, y, dist, leaf);
+        subgrid_findnearestleaf(sg->half2, x, y, dist, leaf);
+        return;
+    }
+
+    for (i = 0, i1 = pl->n - 1; i < pl->n; i1 = i++) {
+        double ex = pl->x[i] - pl->x[i1];
+        double ey = pl->y[i] - pl->y[i1];
+        double len = ex * ex + ey * ey;
+        double t = (len > 0.0) ? ((x - pl->x[i1]) * ex + (y - pl->y[i1]) * ey) / len : 0.0;
+        double d;
+
+        if (t < 0.0)
+            t = 0.0;
+        else if (t > 1.0)
+            t = 1.0;
+        dx = x - pl->x[i1] - t * ex;
+        dy = y - pl->y[i1] - t * ey;
+        d = dx * dx + dy * dy;
+        if (d < *dist) {
+            *dist = d;
+            *leaf = sg;
+        }
+    }
+}
+
 /** Calculates indices (i,j) of a grid cell containing point (x,y).
  *
  * @param gm Grid map
@@ -459,6 +503,17 @@ int gridbmap_xy2ij(gridbmap* gm, double x, double y, int* i, int* j)
             sg = (poly_containspoint(sg->half2->bound, x, y)) ? sg->half2 : sg->half1;
     }
 
+    /*
+     * Because of rounding, a point at the grid outline can be out of both
+     * halves of a subgrid, and the cell found is then an arbitrary one. Pick
+     * the nearest cell.
+     */
+    if (!poly_containspoint(sg->bound, x, y)) {
+        double dist = HUGE_VAL;
+
+        subgrid_findnearestleaf(gm->trunk, x, y, &dist, &sg);
+    }
+
     *i = sg->mini;
     *j = sg->minj;
 
-- 
2.43.0


From 3b020bf6bb164005b379daa0652b2b5804d9d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 31/52] fix: gridkmap_xy2ij(): invalid read for NaN coordinates

---
 gridutils/gridkmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridkmap.c b/gridutils/gridkmap.c
index 721f4e1..8f4b692 100644
--- a/gridutils/gridkmap.c
+++ b/gridutils/gridkmap.c
@@ -83,8 +83,8 @@ int gridkmap_xy2ij(gridkmap* gm, double x, double y, int* iout, int* jout)
     int i, j, i1, i2, j1, j2;
     int success = 0;
 
-    if (x < minmax[0] || y < minmax[1] || x > minmax[2] || y > minmax[3])
-        return success;
+    if (!(x >= minmax[0] && y >= minmax[1] && x <= minmax[2] && y <= minmax[3]))
+        return success;         /* outside, NaN, or no valid nodes */
 
     pos[0] = x;
     pos[1] = y;
-- 
2.43.0


From fa717e9e36c5c36a4e9c026d3cf4237880438dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 32/52] fix: kd_findnearestnode(): undefined result for an
 empty tree or NaN coordinates

---
 gridutils/kdtree.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 4bb3a6b..92ce504 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -409,11 +409,15 @@ static void _kd_findnearestnode(const kdtree* tree, const size_t nodeid, const d
 size_t kd_findnearestnode(const kdtree* tree, const double* coords)
 {
     int ndim = tree->ndim;
-    double* minmax = malloc(ndim * 2 * sizeof(double));
-    size_t result;
+    double* minmax;
+    size_t result = SIZE_MAX;
     double dist;
     int i;
 
+    if (tree->nnodes == 0)
+        return result;
+
+    minmax = malloc(ndim * 2 * sizeof(double));
     for (i = 0; i < ndim * 2; ++i)
         minmax[i] = tree->min[i];
 
-- 
2.43.0


From bc2f3a23bcca20840b995b9b3ffd6b873a367bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 33/52] fix: gu_alloc2d(): size check failed for huge numbers
 of rows

---
 gridutils/gucommon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 5f5f975..740f7f1 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -83,9 +83,9 @@ void* gu_alloc2d(size_t nj, size_t ni, size_t unitsize)
     size_t size;
     void* p;
     void** pp;
-    int i;
+    size_t i;
 
-    if (ni <= 0 || nj <= 0 || ni > (SIZE_MAX / nj - sizeof(void*)) / unitsize)
+    if (ni <= 0 || nj <= 0 || ni > (SIZE_MAX - sizeof(void*)) / unitsize || nj > SIZE_MAX / (sizeof(void*) + ni * unitsize))
         gu_quit("gu_alloc2d(): invalid size (nj = %zu, ni = %zu)", nj, ni);
 
     size = nj * sizeof(void*) + nj * ni * unitsize;
-- 
2.43.0


From 80b16324983ea2e471c04c7d28091fecf534e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 34/52] fix: invalid read in gridkmap_xy2ij() when no node is
 at a finite distance

A node with a finite X and an infinite Y coordinate passes the tree's check
(on the first coordinate only), so that kd_findnearestnode() may find
nothing, and the map then read the id of node SIZE_MAX.
---
 gridutils/gridkmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridutils/gridkmap.c b/gridutils/gridkmap.c
index 8f4b692..535a2db 100644
--- a/gridutils/gridkmap.c
+++ b/gridutils/gridkmap.c
@@ -18,6 +18,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <limits.h>
+#include <stdint.h>
 #include "kdtree.h"
 #include "poly.h"
 #include "gridkmap.h"
@@ -89,6 +90,8 @@ int gridkmap_xy2ij(gridkmap* gm, double x, double y, int* iout, int* jout)
     pos[0] = x;
     pos[1] = y;
     nearest = kd_findnearestnode(gm->tree, pos);
+    if (nearest == SIZE_MAX)
+        return success;         /* nodes with infinite Y coordinate */
     id = kd_getnodeorigid(gm->tree, nearest);
     p = poly_create();
 
-- 
2.43.0


From b220dab66a8270baf91bb3813e74d27a0598f891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:16 +0000
Subject: [PATCH 35/52] fix: endless loop in cut_boundary() for a boundary with
 ends within 1e-15

The last point of the polygon is only to be left out if it repeats the first
one; otherwise the walk along the perimeter never meets it, and adds points
until memory runs out.
---
 gridutils/gridbmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index ab72773..7a0cdb3 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -185,7 +185,7 @@ static void cut_boundary(poly* pl, int nce1, int nce2, double** gx, double** gy,
     /*
      * if the polygon has been explicitely closed, ignore the last point 
      */
-    if (poly_isclosed(pl, 1.0e-15))
+    if (poly_isclosed(pl, 0.0))
         n--;
 
     if (horiz) {                /* horizontal cut */
-- 
2.43.0


From 1c9b83b14efdd98c553aa669edf881309360506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 36/52] fix: kd_readfile(): number of dimensions taken from an
 uninitialised variable

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 92ce504..7bee84a 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -573,7 +573,7 @@ static int str2double(char* token, double* value)
  */
 static kdtree* kd_readfile(char* fname, int ndimin, int dorandomise)
 {
-    int ndim = (isll) ? 3 : ndim;
+    int ndim = (isll) ? 3 : ndimin;
     FILE* f = NULL;
     kdtree* tree = NULL;
     char buf[BUFSIZE];
-- 
2.43.0


From f254a36da06b5d4cc9a4edb5255b3fbdbc157f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 37/52] fix: kd: distance to the nearest node summed from an
 uninitialised value

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 7bee84a..8754ad0 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -780,7 +780,7 @@ int main(int argc, char* argv[])
     int dorandomise = 1;
     kdtree* tree = NULL;
     kdset* set = NULL;
-    double dist;
+    double dist = 0.0;
     size_t id, id_orig;
     int i;
 
-- 
2.43.0


From 619a02862b13cc5a92f7114ac14e16f931907db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 38/52] fix: kd: wrong longitudes of found nodes beyond 90
 degrees

---
 gridutils/kdtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 8754ad0..12e958d 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -819,7 +819,7 @@ int main(int argc, char* argv[])
 
             if (isll) {
                 double lat = asin(rescoords[2] / REARTH);
-                double lon = asin(rescoords[0] / REARTH / cos(lat));
+                double lon = atan2(rescoords[0], rescoords[1]);
 
                 dist = sqrt((rescoords[0] - coords[0]) * (rescoords[0] - coords[0]) + (rescoords[1] - coords[1]) * (rescoords[1] - coords[1]) + (rescoords[2] - coords[2]) * (rescoords[2] - coords[2]));
                 rescoordsout[0] = lon / INVRAD;
@@ -855,7 +855,7 @@ int main(int argc, char* argv[])
 
             if (isll) {
                 double lat = asin(rescoords[2] / REARTH);
-                double lon = asin(rescoords[0] / REARTH / cos(lat));
+                double lon = atan2(rescoords[0], rescoords[1]);
 
                 rescoords[0] = lon / INVRAD;
                 rescoords[1] = lat / INVRAD;
-- 
2.43.0


From 75a9a145cc1255dcccd20bd5860e782f486da68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 39/52] fix: kd: negative coordinates taken for options

---
 gridutils/kdtree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 12e958d..7ae07b5 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -521,6 +521,7 @@ double* kd_getminmax(const kdtree* tree)
 
 #include <stdarg.h>
 #include <errno.h>
+#include <ctype.h>
 
 #define BUFSIZE 1024
 #define NDIMMAX 256
@@ -724,7 +725,7 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* ndim, d
             i++;
             if (i >= argc)
                 quit("no <coords> values found after -p");
-            for (ii = 0; i < argc && argv[i][0] != '-'; ++ii, ++i)
+            for (ii = 0; i < argc && (argv[i][0] != '-' || isdigit((unsigned char) argv[i][1]) || argv[i][1] == '.'); ++ii, ++i)
                 if (!str2double(argv[i], &coords[ii]))
                     usage();
             break;
-- 
2.43.0


From ac651675a530f9f4152b64d577667ca8e575447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 40/52] fix: kd: missing or excessive coordinates led to
 invalid reads and writes

---
 gridutils/kdtree.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 7ae07b5..bb04911 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -689,7 +689,7 @@ static void usage(void)
  */
 static void parse_commandline(int argc, char* argv[], char** fname, int* ndim, double* coords, double* range, int* dosort, int* dorandomise)
 {
-    int i, ii;
+    int i, ii = 0;
 
     if (argc < 2)
         usage();
@@ -726,7 +726,9 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* ndim, d
             if (i >= argc)
                 quit("no <coords> values found after -p");
             for (ii = 0; i < argc && (argv[i][0] != '-' || isdigit((unsigned char) argv[i][1]) || argv[i][1] == '.'); ++ii, ++i)
-                if (!str2double(argv[i], &coords[ii]))
+                if (ii == NDIMMAX)
+                    quit("more than %d coordinates given after -p", NDIMMAX);
+                else if (!str2double(argv[i], &coords[ii]))
                     usage();
             break;
         case 'o':
@@ -755,6 +757,10 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* ndim, d
 
     if (*ndim <= 0)
         quit("\"ndim\" must be defined");
+    if (isll && *ndim != 2)
+        quit("no. of dimensions = %d; must be 2 for lon/lat coordinates", *ndim);
+    if (ii != *ndim)
+        quit("%d coordinates of the point given; expected %d", ii, *ndim);
 }
 
 /**
-- 
2.43.0


From 8d51dad272f8696a8b52e0bd58f9d5936e96a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 41/52] fix: kd_findnodeswithinrange(): nodes found within a
 negative range

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index bb04911..764e164 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -319,7 +319,7 @@ kdset* kd_findnodeswithinrange(const kdtree* tree, const double* coords, double
     rset->root = NULL;
     rset->size = 0;
 
-    ret = (tree->nnodes > 0) ? _kd_findnodeswithinrange(tree, 0, coords, range, rset, ordered) : 0;
+    ret = (tree->nnodes > 0 && range >= 0.0) ? _kd_findnodeswithinrange(tree, 0, coords, range, rset, ordered) : 0;
     rset->size = ret;
 
     return rset;
-- 
2.43.0


From ceb59151c52321f1a1e63a203fb42789cd7e43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 42/52] fix: kd: the radius was not passed to printf()

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 764e164..490933e 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -849,7 +849,7 @@ int main(int argc, char* argv[])
         /*
          * find nodes within range
          */
-        printf("  nodes within r < %.3g%s", (isll) ? "km" : "");
+        printf("  nodes within r < %.3g%s", range, (isll) ? "km" : "");
         fflush(stdout);
         set = kd_findnodeswithinrange(tree, coords, range, dosort);
         printf("    %zu points found:\n", kdset_getsize(set));
-- 
2.43.0


From 714c70b8ce9e897bd9a54a838c35c75efeade0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 43/52] fix: subgrid, setbathy: a range that is no range was
 ignored

---
 gridutils/setbathy.c | 6 ++++--
 gridutils/subgrid.c  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 490d5e2..4b5dfcb 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -69,14 +69,16 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* imin, i
                 i++;
                 if (i == argc)
                     gu_quit("no range found after \"-i\"");
-                sscanf(argv[i], "%d:%d", imin, imax);
+                if (sscanf(argv[i], "%d:%d", imin, imax) < 1)
+                    gu_quit("could not interpret range \"%s\" after \"-i\"", argv[i]);
                 i++;
                 break;
             case 'j':
                 i++;
                 if (i == argc)
                     gu_quit("no range found after \"-j\"");
-                sscanf(argv[i], "%d:%d", jmin, jmax);
+                if (sscanf(argv[i], "%d:%d", jmin, jmax) < 1)
+                    gu_quit("could not interpret range \"%s\" after \"-j\"", argv[i]);
                 i++;
                 break;
             case 'd':
diff --git a/gridutils/subgrid.c b/gridutils/subgrid.c
index d012fff..466e5a1 100644
--- a/gridutils/subgrid.c
+++ b/gridutils/subgrid.c
@@ -88,14 +88,16 @@ static void parse_commandline(int argc, char* argv[], char** fname, COORDTYPE* c
                 i++;
                 if (i == argc)
                     gu_quit("no range found after \"-i\"");
-                sscanf(argv[i], "%d:%d", imin, imax);
+                if (sscanf(argv[i], "%d:%d", imin, imax) < 1)
+                    gu_quit("could not interpret range \"%s\" after \"-i\"", argv[i]);
                 i++;
                 break;
             case 'j':
                 i++;
                 if (i == argc)
                     gu_quit("no range found after \"-j\"");
-                sscanf(argv[i], "%d:%d", jmin, jmax);
+                if (sscanf(argv[i], "%d:%d", jmin, jmax) < 1)
+                    gu_quit("could not interpret range \"%s\" after \"-j\"", argv[i]);
                 i++;
                 break;
             case 'h':
-- 
2.43.0


From 182ac14867b09d9d743064141d7f1db9525c9467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 44/52] fix: building maps and converting grids reset the
 caller's drand48() sequence

---
 gridutils/gridnodes.c | 9 ++++++---
 gridutils/kdtree.c    | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 9195875..abb029d 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -552,12 +552,15 @@ static void fij2xy(gridnodes* gn, double fi, double fj, int i, int j, double* x,
  */
 static void shuffle(size_t n, size_t ids[])
 {
+    /*
+     * (the same sequence as after srand48(SEED), but without changing the
+     * state of the caller's drand48())
+     */
+    unsigned short xsubi[3] = { 0x330e, SEED & 0xffff, SEED >> 16 };
     size_t i;
 
-    srand48(SEED);
-
     for (i = 0; i < n; ++i) {
-        size_t ii = (size_t) ((double) n * drand48());
+        size_t ii = (size_t) ((double) n * erand48(xsubi));
         size_t tmp = ids[i];
 
         ids[i] = ids[ii];
diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 490933e..5dc3bc1 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -153,12 +153,15 @@ void kd_insertnode(kdtree* tree, const double* coords, size_t id_orig)
  */
 static void shuffle(size_t n, size_t ids[])
 {
+    /*
+     * (the same sequence as after srand48(SEED), but without changing the
+     * state of the caller's drand48())
+     */
+    unsigned short xsubi[3] = { 0x330e, SEED & 0xffff, SEED >> 16 };
     size_t i;
 
-    srand48(SEED);
-
     for (i = 0; i < n; ++i) {
-        size_t ii = (size_t) ((double) n * drand48());
+        size_t ii = (size_t) ((double) n * erand48(xsubi));
         size_t tmp = ids[i];
 
         ids[i] = ids[ii];
-- 
2.43.0


From 25e74ae99d9782f46528b3ef01fa30765d52a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 45/52] fix: gridbathy: a surplus argument was taken for an
 option after its first letter

---
 gridutils/gridbathy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 59499c1..efc377f 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -194,6 +194,8 @@ static void parse_commandline(int argc, char* argv[], char** bathyfname, char**
 
     i = 1;
     while (i < argc) {
+        if (argv[i][0] != '-')
+            usage();
         switch (argv[i][1]) {
         case 'a':
             i++;
-- 
2.43.0


From 6819a7f7ba38532394cabfcc76ca62808fb66f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 46/52] fix: insertgrid, setbathy, gridbathy: text that is no
 number was taken for zero

---
 gridutils/gridbathy.c  |  8 +++++++-
 gridutils/insertgrid.c | 12 +++++++-----
 gridutils/setbathy.c   |  3 ++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index efc377f..915547d 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -201,7 +201,13 @@ static void parse_commandline(int argc, char* argv[], char** bathyfname, char**
             i++;
             if (i >= argc)
                 gu_quit("no interpolation rule number found after -a");
-            rule = atoi(argv[i]);
+            {
+                int value;
+
+                if (!str2int(argv[i], &value))
+                    gu_quit("could not read interpolation rule number after -a");
+                rule = value;
+            }
             if (rule < CSA || rule > AVERAGE)
                 gu_quit("invalid interpolation rule number");
             i++;
diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index cfcf9b3..f633710 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -95,11 +95,13 @@ static void parse_commandline(int argc, char* argv[], char** fname1, char** fnam
                 *fname1 = argv[i];
             else if (*fname2 == NULL)
                 *fname2 = argv[i];
-            else if (*i0 == -1)
-                *i0 = atoi(argv[i]);
-            else if (*j0 == -1)
-                *j0 = atoi(argv[i]);
-            else
+            else if (*i0 == -1) {
+                if (sscanf(argv[i], "%d", i0) != 1)
+                    gu_quit("could not interpret location \"%s\"", argv[i]);
+            } else if (*j0 == -1) {
+                if (sscanf(argv[i], "%d", j0) != 1)
+                    gu_quit("could not interpret location \"%s\"", argv[i]);
+            } else
                 usage();
         } else {
             switch (argv[i][1]) {
diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 4b5dfcb..c23a968 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -93,7 +93,8 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* imin, i
                 i++;
                 if (i == argc)
                     gu_quit("no offset found after \"-d\"");
-                *offset = atoi(argv[i]);
+                if (sscanf(argv[i], "%d", offset) != 1)
+                    gu_quit("could not interpret offset \"%s\" after \"-o\"", argv[i]);
                 i++;
                 break;
             case 'v':
-- 
2.43.0


From 7daa04287ec766d069f0e569ea27c35cfbe9cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 47/52] fix: kd-tree identifiers from 2^31 on came back changed

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 5dc3bc1..4571098 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -510,7 +510,7 @@ double* kd_getnodecoords(const kdtree* tree, size_t id)
 size_t kd_getnodeorigid(const kdtree* tree, size_t id)
 {
 
-    return (int) tree->nodes[id].id_orig;
+    return tree->nodes[id].id_orig;
 }
 
 /* get boundary rectangle
-- 
2.43.0


From 31da6be961ec166dd0816df4ed57118dd3958e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 48/52] fix: gridnodes_transform(): a grid without node type
 was transformed into one without nodes

---
 gridutils/gridnodes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index abb029d..e5fadd3 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -583,6 +583,8 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
 
     if (gn->type == type || type == NT_NONE)
         return gridnodes_copy(gn);
+    if (gn->type == NT_NONE)
+        gu_quit("gridnodes_transform(): nodes type not specified");
 
     gn1 = calloc(1, sizeof(gridnodes));
     gn1->type = type;
-- 
2.43.0


From c3fafd5258855657d707b4ede61d4287dbe02f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 49/52] fix: gridnodes_readnextpoint() marks a node with one
 NaN coordinate as missing in both

---
 gridutils/gridnodes.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index e5fadd3..c354125 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -213,6 +213,10 @@ void gridnodes_readnextpoint(gridnodes* gn, double x, double y)
     int j = gn->nextpoint / gn->nx;
     int i = gn->nextpoint % gn->nx;
 
+    if (isnan(x) || isnan(y)) {
+        x = NaN;
+        y = NaN;
+    }
     gn->gx[j][i] = x;
     gn->gy[j][i] = y;
     gn->nextpoint = (gn->nextpoint + 1) % (gn->nx * gn->ny);
-- 
2.43.0


From 80db808abb9d1e06c63e1199be41e0d62c540942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 50/52] fix: gridnodes_readnextpoint() makes a validated grid
 subject to validation again

---
 gridutils/gridnodes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index c354125..0f0cd47 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -219,6 +219,7 @@ void gridnodes_readnextpoint(gridnodes* gn, double x, double y)
     }
     gn->gx[j][i] = x;
     gn->gy[j][i] = y;
+    gn->validated = 0;
     gn->nextpoint = (gn->nextpoint + 1) % (gn->nx * gn->ny);
 }
 
-- 
2.43.0


From ee9631f5b4015075736cc849a01aa528ed9c082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 51/52] fix: poly_addpointat() refuses NaN as poly_addpoint()
 does

---
 gridutils/poly.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 7000e38..e7f303e 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -135,6 +135,8 @@ void poly_addpointat(poly* pl, int index, double x, double y)
         poly_addpoint(pl, x, y);
         return;
     }
+    if (isnan(x) || isnan(y))
+        gu_quit("poly_addpointat(): NaN detected");
 
     if (pl->n == pl->nallocated) {
         pl->x = realloc(pl->x, pl->nallocated * sizeof(double) * 2);
-- 
2.43.0


From ccf8d1fbcbf7024b364497749ab3640bcae53b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 52/52] fix: insertgrid: a negative location lost the master's
 nodes, and -1 was taken for no location

---
 gridutils/insertgrid.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index f633710..d4e2457 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -85,8 +85,8 @@ static void parse_commandline(int argc, char* argv[], char** fname1, char** fnam
 
     *fname1 = NULL;
     *fname2 = NULL;
-    *i0 = -1;
-    *j0 = -1;
+    *i0 = INT_MAX;
+    *j0 = INT_MAX;
     *type = NT_NONE;
 
     for (i = 1; i < argc; ++i) {
@@ -95,10 +95,10 @@ static void parse_commandline(int argc, char* argv[], char** fname1, char** fnam
                 *fname1 = argv[i];
             else if (*fname2 == NULL)
                 *fname2 = argv[i];
-            else if (*i0 == -1) {
+            else if (*i0 == INT_MAX) {
                 if (sscanf(argv[i], "%d", i0) != 1)
                     gu_quit("could not interpret location \"%s\"", argv[i]);
-            } else if (*j0 == -1) {
+            } else if (*j0 == INT_MAX) {
                 if (sscanf(argv[i], "%d", j0) != 1)
                     gu_quit("could not interpret location \"%s\"", argv[i]);
             } else
@@ -145,7 +145,7 @@ static void parse_commandline(int argc, char* argv[], char** fname1, char** fnam
     if (gu_verbose && argc == 2)
         version();
 
-    if (*fname1 == NULL || *fname2 == NULL || *i0 == -1 || *j0 == -1)
+    if (*fname1 == NULL || *fname2 == NULL || *i0 == INT_MAX || *j0 == INT_MAX)
         usage();
 }
 
@@ -192,6 +192,12 @@ int main(int argc, char* argv[])
         gu_quit("insertgrid: location (%d,%d) is too big", i0, j0);
     nx3 = (i0 + nx2 > nx1) ? i0 + nx2 : nx1;
     ny3 = (j0 + ny2 > ny1) ? j0 + ny2 : ny1;
+    if ((i0 < 0 && nx3 > INT_MAX + i0) || (j0 < 0 && ny3 > INT_MAX + j0))
+        gu_quit("insertgrid: location (%d,%d) is too far", i0, j0);
+    if (i0 < 0)
+        nx3 -= i0;
+    if (j0 < 0)
+        ny3 -= j0;
     grid3 = gridnodes_create(nx3, ny3, type);
     gx3 = gridnodes_getx(grid3);
     gy3 = gridnodes_gety(grid3);
-- 
2.43.0

