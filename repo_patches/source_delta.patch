From be13e1b0216cd28ad036f9525149e70443949fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 01/50] fix: TG_NOATOMICS reference counts moved the pointer,
 not the counter

---
 tg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index ca67505..bb6c2fc 100644
--- a/tg.c
+++ b/tg.c
@@ -549,11 +549,11 @@ static void rc_init(rc_t *rc) {
     *rc = 0;
 }
 static void rc_retain(rc_t *rc) {
-    *rc++;
+    (*rc)++;
 }
 static bool rc_release(rc_t *rc) {
-    *rc--;
-    return *rc == 1;
+    (*rc)--;
+    return *rc == 0;
 }
 
 #else
-- 
2.43.0


From 569bf55eaf9f02533ab0ba803f38f0992816394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 02/50] fix: tg_geom_*_at() read one past the last child

---
 tg.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index bb6c2fc..d81688f 100644
--- a/tg.c
+++ b/tg.c
@@ -5407,7 +5407,7 @@ int tg_geom_num_geometries(const struct tg_geom *geom) {
 struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOINT && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return ((struct boxed_point*)geom->multi->geoms[index])->point;
     }
@@ -5424,7 +5424,7 @@ struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
 const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTILINESTRING && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_line*)geom->multi->geoms[index];
     }
@@ -5441,7 +5441,7 @@ const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
 const struct tg_poly *tg_geom_poly_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOLYGON && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_poly *)geom->multi->geoms[index];
     }
@@ -5463,7 +5463,7 @@ const struct tg_geom *tg_geom_geometry_at(const struct tg_geom *geom,
 {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_GEOMETRYCOLLECTION && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return geom->multi->geoms[index];
     }
-- 
2.43.0


From 75209ed1adde5c4626a09dda9bf0f25c70df0178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 03/50] fix: WKB position count overflowed 32 bits and read
 past the input

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index d81688f..f243e2b 100644
--- a/tg.c
+++ b/tg.c
@@ -13333,11 +13333,11 @@ static size_t parse_wkb_posns(enum base base, int dims,
     uint32_t count;
     read_uint32(count);
     if (count == 0) return i;
-    if (dims == 2 && !swap && len-i >= count*2*8) {
+    if (dims == 2 && !swap && len-i >= (size_t)count*2*8) {
         // Use the point data directly. No allocations. 
         *points = (void*)(wkb+i);
         *npoints = count;
-        i += count*2*8; 
+        i += (size_t)count*2*8; 
     } else {
         for (uint32_t j = 0 ; j < count; j++) {
             read_posn(posn);
-- 
2.43.0


From dc038af74603edf51038d785de880a9af04cf695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 04/50] fix: tg_geobin_fullrect() wrote past min/max on a bad
 dims byte

---
 tg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index f243e2b..2333b61 100644
--- a/tg.c
+++ b/tg.c
@@ -15858,8 +15858,12 @@ int tg_geobin_fullrect(const uint8_t *geobin, size_t len, double min[4],
             if (dims > 0 && len >= 5+8*dims) {
                 memcpy(min, geobin+5, 8*dims);
                 memcpy(max, geobin+5, 8*dims);
+            } else {
+                dims = 0;
             }
-        } else if (geobin[0] != 0x01 && len >= 2+8*(size_t)geobin[1]*2){
+        } else if (geobin[0] != 0x01 && geobin[1] <= 4 &&
+            len >= 2+8*(size_t)geobin[1]*2)
+        {
             // Read MBR
             dims = geobin[1];
             memcpy(min, geobin+2, 8*dims);
-- 
2.43.0


From b3aa3023fd00ddc9fd5b47cb08627e77209347f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 05/50] fix: GeoBIN feature count was allocated before being
 checked

---
 tg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tg.c b/tg.c
index 2333b61..804fb1c 100644
--- a/tg.c
+++ b/tg.c
@@ -15510,6 +15510,9 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
         uint32_t nfeats;
         memcpy(&nfeats, geobin+i, 4);
         i += 4;
+        if (nfeats > len-i) {
+            goto invalid; // each feature needs at least one byte
+        }
         struct tg_geom **feats = tg_malloc(nfeats*sizeof(struct tg_geom*));
         if (!feats) {
             return 0;
-- 
2.43.0


From b6b2efb9bfcc9cba0e9d92dac04d7f8d9506c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 06/50] fix: GeoBIN took a failed WKB child for a geometry

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 804fb1c..88f40cc 100644
--- a/tg.c
+++ b/tg.c
@@ -15522,7 +15522,7 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
         uint32_t j = 0;
         for (; j < nfeats; j++) {
             i = parse_geobin(geobin, len, i, depth+1, ix, &feat);
-            if (i == PARSE_FAIL) {
+            if (i == PARSE_FAIL || !feat || tg_geom_error(feat)) {
                 break;
             }
             feats[j] = feat;
@@ -15546,7 +15546,7 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
     } else {
         i = parse_wkb(geobin, len, i, depth, ix, &geom);
     }
-    if (i == PARSE_FAIL || !geom) {
+    if (i == PARSE_FAIL || !geom || tg_geom_error(geom)) {
         *g = geom;
         return PARSE_FAIL;
     }
-- 
2.43.0


From 82541ef25f0ab1cdc7d371c4f8ff72185f548bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 07/50] fix: json validation accepted invalid string escapes

---
 deps/json.c | 2 +-
 tg.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index b3e1a96..a9beb73 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -138,7 +138,7 @@ static int64_t vstring(const uint8_t *json, int64_t jlen, int64_t i) {
             i += res.n;
 #endif
         } else if (json[i] == '\\') {
-            if ((i = vesc(json, jlen, i)) < 0) break;
+            if ((i = vesc(json, jlen, i)) < 0) return i;
         } else {
             break;
         }
diff --git a/tg.c b/tg.c
index 88f40cc..6641b31 100644
--- a/tg.c
+++ b/tg.c
@@ -6874,7 +6874,7 @@ static int64_t vstring(const uint8_t *json, int64_t jlen, int64_t i) {
             i += res.n;
 #endif
         } else if (json[i] == '\\') {
-            if ((i = vesc(json, jlen, i)) < 0) break;
+            if ((i = vesc(json, jlen, i)) < 0) return i;
         } else {
             break;
         }
-- 
2.43.0


From 6d58cdbca4b9e501620d27fea1ccb224e387a3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 08/50] fix: tg_poly_memsize() counted a ring struct per hole
 pointer

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 6641b31..5953f5a 100644
--- a/tg.c
+++ b/tg.c
@@ -4271,7 +4271,7 @@ size_t tg_poly_memsize(const struct tg_poly *poly) {
     if (poly->exterior) {
         size += tg_ring_memsize(poly->exterior);
     }
-    size += poly->nholes*sizeof(struct tg_ring);
+    size += poly->nholes*sizeof(struct tg_ring*);
     for (int i = 0; i < poly->nholes; i++) {
         size += tg_ring_memsize(poly->holes[i]);
     }
-- 
2.43.0


From 61df21478fce698b91a5e1cc6e3f5e2196aabe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:53 +0000
Subject: [PATCH 09/50] fix: copies of indexed geometries kept pointers into
 the original

---
 tg.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/tg.c b/tg.c
index 5953f5a..ec03b0c 100644
--- a/tg.c
+++ b/tg.c
@@ -2140,6 +2140,16 @@ static void fill_index_struct(struct index *index, int nlevels, int nsegs,
     }
 }
 
+// relocate_index_struct points the levels of a byte-for-byte copy of an index
+// at its own memory.
+static void relocate_index_struct(struct index *copy, const struct index *orig)
+{
+    for (int i = 0; i < orig->nlevels; i++) {
+        copy->levels[i].rects = (void*)((char*)copy + 
+            ((char*)orig->levels[i].rects - (char*)orig));
+    }
+}
+
 static struct tg_ring *series_new(const struct tg_point *points, int npoints, 
     bool closed, enum tg_index ix) 
 {
@@ -15067,6 +15077,12 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
     rc_init(&ring2->head.rc);
     rc_retain(&ring2->head.rc);
     ring2->head.noheap = 0;
+    if (ring->index) {
+        // The index shares same allocation as the ring.
+        ring2->index = (struct index *)((char*)ring2 + 
+            ((char*)ring->index - (char*)ring));
+        relocate_index_struct(ring2->index, ring->index);
+    }
     if (ring->ystripes) {
         ring2->ystripes = tg_malloc(ring->ystripes->memsz);
         if (!ring2->ystripes) {
@@ -15074,6 +15090,12 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
             return NULL;
         }
         memcpy(ring2->ystripes, ring->ystripes, ring->ystripes->memsz);
+        for (int i = 0; i < ring->ystripes->nstripes; i++) {
+            ring2->ystripes->stripes[i].indexes = (void*)(
+                (char*)ring2->ystripes + (
+                (char*)ring->ystripes->stripes[i].indexes - 
+                (char*)ring->ystripes));
+        }
     }
     return ring2;
 }
@@ -15199,6 +15221,7 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
                 }
                 memcpy(geom2->multi->index, geom->multi->index, 
                     geom->multi->index->memsz);
+                relocate_index_struct(geom2->multi->index, geom->multi->index);
             }
             if (geom->multi->ixgeoms) {
                 geom2->multi->ixgeoms = tg_malloc(
-- 
2.43.0


From 23f813cee5314b4d15016c3b407ada18b8efcd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 10/50] fix: tg_geom_copy() of an empty linestring or polygon
 returned NULL

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index ec03b0c..121eeeb 100644
--- a/tg.c
+++ b/tg.c
@@ -15177,13 +15177,13 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
         break;
     case TG_LINESTRING:
         geom2->line = tg_line_copy(geom->line);
-        if (!geom2->line) {
+        if (geom->line && !geom2->line) {
             goto fail;
         }
         break;
     case TG_POLYGON:
         geom2->poly = tg_poly_copy(geom->poly);
-        if (!geom2->poly) {
+        if (geom->poly && !geom2->poly) {
             goto fail;
         }
         break;
-- 
2.43.0


From c2967a9890bd32cd31d0da659a9c75457980496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 11/50] fix: natural index did not cover the closing segment of
 an unclosed ring

---
 tg.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 121eeeb..f809f8b 100644
--- a/tg.c
+++ b/tg.c
@@ -1883,7 +1883,7 @@ static void fill_in_upper_index_levels(struct index *index) {
 (struct tg_ring*)(&(char[sizeof(struct tg_ring)+sizeof(struct tg_point)*5]){0})
 
 static struct tg_rect process_points(const struct tg_point *points,
-    int npoints, struct tg_point *ring_points, struct index *index,
+    int npoints, int nsegs, struct tg_point *ring_points, struct index *index,
     bool *convex, bool *clockwise, double *area)
 {
     struct tg_rect rect = { 0 };
@@ -2086,6 +2086,10 @@ lconcave:
         // Fill in the final indexing rectangles
         if (r != index->levels[index->nlevels-1].nrects) {
             // There's one last index rectangle remaining.
+            if (nsegs == npoints) {
+                // The last segment of an unclosed ring ends at the first point.
+                rect_inflate_point(&spreadrect, &b);
+            }
             inflate_mbr_and_copy_next_index_rect();
         }
         fill_in_upper_index_levels(index);
@@ -2207,7 +2211,7 @@ static struct tg_ring *series_new(const struct tg_point *points, int npoints,
         fill_index_struct(ring->index, nlevels, nsegs, ixspread, ixsize);
     }
 
-    ring->rect = process_points(points, npoints, ring->points, ring->index,
+    ring->rect = process_points(points, npoints, nsegs, ring->points, ring->index,
         &ring->convex, &ring->clockwise, &ring->area);
     
     // Fill extra point to ensure perfect close.
-- 
2.43.0


From 0c197f60c08878ec1a71199fc18469ab725c6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 12/50] fix: YSTRIPES on a ring without height divided by zero

---
 tg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index f809f8b..e50045d 100644
--- a/tg.c
+++ b/tg.c
@@ -1672,10 +1672,14 @@ struct ystripes {
 };
 
 static bool process_ystripes(struct tg_ring *ring) {
+    double height = ring->rect.max.y - ring->rect.min.y;
+    if (!(height > 0)) {
+        // No height to divide into stripes. The base index will be used.
+        return true;
+    }
     double score = tg_ring_polsby_popper_score(ring);
     int nstripes = ring->nsegs * score;
     nstripes = fmax0(nstripes, 32);
-    double height = ring->rect.max.y - ring->rect.min.y;
 
     // ycounts is used to log the number of segments in each stripe.
     int *ycounts = tg_malloc(nstripes*sizeof(int));
-- 
2.43.0


From 79d32cc027f4e941a51cad21f5f7057fa9761bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 13/50] fix: a ring with its reflex vertex at the first point
 was reported convex

A corner next to a duplicate point was never checked, which includes the first
corner of every closed ring. Also, a straight first corner made every clockwise
ring concave.
---
 tg.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index e50045d..d00170e 100644
--- a/tg.c
+++ b/tg.c
@@ -1880,6 +1880,33 @@ static void fill_in_upper_index_levels(struct index *index) {
     }
 }
 
+// has_reflex tests the corners that process_points cannot see, which are those
+// that have a duplicate point next to them. In particular the corner at the 
+// first point of a closed ring, which is also the last point.
+static bool has_reflex(const struct tg_point *points, int npoints, int dir) {
+    struct tg_point a = points[npoints-1];
+    for (int i = npoints-2; i >= 0 && pteq(a, points[npoints-1]); i--) {
+        a = points[i];
+    }
+    struct tg_point b = points[npoints-1];
+    for (int i = 0; i < npoints; i++) {
+        struct tg_point c = points[i];
+        if (pteq(b, c)) {
+            continue;
+        }
+        double z = (b.x-a.x)*(c.y-b.y) - (b.y-a.y)*(c.x-b.x);
+        if ((z < 0 && dir > 0) || (z > 0 && dir < 0)) {
+            return true;
+        }
+        if (dir == 0) {
+            dir = z < 0 ? -1 : z > 0;
+        }
+        a = b;
+        b = c;
+    }
+    return false;
+}
+
 // stack_ring returns a ring on the stack that has enough points to be capable
 // of storing a rectangle. This is here to allow for tg_ring style operations
 // on tg_rect without an allocation or vla.
@@ -1971,7 +1998,7 @@ static struct tg_rect process_points(const struct tg_point *points,
     #define step_calc_concave(label) { \
         double z_cross_product = (b.x-a.x)*(c.y-b.y) - (b.y-a.y)*(c.x-b.x); \
         if (dir == 0) { \
-            dir = z_cross_product < 0 ? -1 : 1; \
+            dir = z_cross_product < 0 ? -1 : z_cross_product > 0; \
         } else if (z_cross_product < 0) { \
             if (dir == 1) { \
                 concave = true; \
@@ -2100,7 +2127,7 @@ lconcave:
     }
 
     *area = fabs(cwc / 2.0);
-    *convex = !concave;
+    *convex = !concave && !has_reflex(points, npoints, dir);
     *clockwise = cwc > 0;
 
     return rect;
-- 
2.43.0


From 18cabb24333b409a13ea750cacc08c42b6136ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 14/50] fix: empty multi geometries without positions were
 given Z and M

---
 tg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tg.c b/tg.c
index d00170e..e7cb180 100644
--- a/tg.c
+++ b/tg.c
@@ -8361,6 +8361,7 @@ static struct tg_geom *parse_geojson_multipoint(struct json json,
     const struct tg_point *points = (struct tg_point*)posns.data;
     int npoints = posns.len/2;
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipoint(points, npoints);
         break;
@@ -8411,6 +8412,7 @@ static struct tg_geom *parse_geojson_multilinestring(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multilinestring(
                 (struct tg_line const*const*)lines.data, lines.len);
@@ -8470,6 +8472,7 @@ static struct tg_geom *parse_geojson_multipolygon(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipolygon(
                 (struct tg_poly const*const*)polys.data, polys.len);
@@ -12450,6 +12453,7 @@ static struct tg_geom *parse_wkt_multipoint(const char *wkt, long len,
     const struct tg_point *points = (struct tg_point*)posns.data;
     int npoints = posns.len/2;
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipoint(points, npoints);
         break;
@@ -12525,6 +12529,7 @@ static struct tg_geom *parse_wkt_multilinestring(const char *wkt, long len,
         }
     }
     switch (dims) {
+    case 0: // no positions
     case 2:
         geom = tg_geom_new_multilinestring(
                 (struct tg_line const*const*)lines.data, lines.len);
@@ -12610,6 +12615,7 @@ static struct tg_geom *parse_wkt_multipolygon(const char *wkt, long len,
         }
     }
     switch (dims) {
+    case 0: // no positions
     case 2:
         geom = tg_geom_new_multipolygon(
                 (struct tg_poly const*const*)polys.data, polys.len);
-- 
2.43.0


From 613d95288e4019dbd0b15e920a53bca26c359290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 15/50] fix: empty child of a WKB MULTILINESTRING or
 MULTIPOLYGON was stored as NULL

Writing such a geometry dereferenced the NULL child.
---
 tg.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index e7cb180..0de761a 100644
--- a/tg.c
+++ b/tg.c
@@ -13719,7 +13719,10 @@ static size_t parse_wkb_multilinestring(const uint8_t *wkb, size_t len,
             gerr = make_parse_error(wkb_invalid_child_type());
             goto fail;
         }
-        struct tg_line *line = tg_line_clone(tg_geom_line(child));
+        const struct tg_line *cline = tg_geom_line(child);
+        struct tg_line *line = cline ? tg_line_clone(cline) : 
+            tg_line_new_ix(NULL, 0, ix); // empty linestring
+        if (!line) goto fail;
         if (!lvec_append(&lines, line)) {
             tg_line_free(line);
             goto fail;
@@ -13800,7 +13803,10 @@ static size_t parse_wkb_multipolygon(const uint8_t *wkb, size_t len,
             gerr = make_parse_error(wkb_invalid_child_type());
             goto fail;
         }
-        struct tg_poly *poly = tg_poly_clone(tg_geom_poly(child));
+        const struct tg_poly *cpoly = tg_geom_poly(child);
+        struct tg_poly *poly = cpoly ? tg_poly_clone(cpoly) : 
+            (struct tg_poly*)tg_ring_new_ix(NULL, 0, ix); // empty polygon
+        if (!poly) goto fail;
         if (!pvec_append(&polys, poly)) {
             tg_poly_free(poly);
             goto fail;
-- 
2.43.0


From 02b1e2002a4b3b45008c3665d40e9547dd21bb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 16/50] fix: json validation rejected U+10FFFF and accepted
 overlong UTF-8

---
 deps/json.c | 4 +++-
 tg.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index a9beb73..c06ad79 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -65,7 +65,9 @@ static inline struct vutf8res vutf8(const uint8_t data[], int64_t len) {
         goto fail;
     }
     if (cp < 128) goto fail; // don't allow multibyte ascii characters
-    if (cp >= 0x10FFFF) goto fail; // restricted to utf-16
+    if (n == 3 && cp < 0x800) goto fail; // overlong
+    if (n == 4 && cp < 0x10000) goto fail; // overlong
+    if (cp > 0x10FFFF) goto fail; // restricted to utf-16
     if (cp >= 0xD800 && cp <= 0xDFFF) goto fail; // needs surrogate pairs
     return (struct vutf8res) { .n = n, .cp = cp };
 fail:
diff --git a/tg.c b/tg.c
index 0de761a..19fb87e 100644
--- a/tg.c
+++ b/tg.c
@@ -6846,7 +6846,9 @@ static inline struct vutf8res vutf8(const uint8_t data[], int64_t len) {
         goto fail;
     }
     if (cp < 128) goto fail; // don't allow multibyte ascii characters
-    if (cp >= 0x10FFFF) goto fail; // restricted to utf-16
+    if (n == 3 && cp < 0x800) goto fail; // overlong
+    if (n == 4 && cp < 0x10000) goto fail; // overlong
+    if (cp > 0x10FFFF) goto fail; // restricted to utf-16
     if (cp >= 0xD800 && cp <= 0xDFFF) goto fail; // needs surrogate pairs
     return (struct vutf8res) { .n = n, .cp = cp };
 fail:
-- 
2.43.0


From ed5ebc0759fc1a5b5fe81f0546cd3976bc287e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 17/50] fix: line-covers-line could loop forever and skipped
 uncovered segments

The walk over the segments of the other line could step back and forth between
two segments without end, and a segment that was not covered by the current one
was silently ignored.
---
 tg.c | 71 +++++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/tg.c b/tg.c
index 19fb87e..c581023 100644
--- a/tg.c
+++ b/tg.c
@@ -3505,45 +3505,58 @@ bool tg_line_intersects_rect(const struct tg_line *line, struct tg_rect rect) {
 
 /// Tests whether a line contains another line
 /// @see LineFuncs
-bool tg_line_covers_line(const struct tg_line *a, const struct tg_line *b) {
-    if (tg_line_empty(a) || tg_line_empty(b)) return false;
+struct covers_seg_iter_ctx {
+    struct tg_segment seg;  // segment that needs to be covered
+    struct tg_point reach;  // seg is covered from seg.a to here
+    bool more;              // reach was extended
+};
 
-    if (!tg_rect_covers_rect(tg_line_rect(a), tg_line_rect(b))) {
-        return false;
+static double reach_len2(struct tg_point a, struct tg_point b) {
+    return (b.x-a.x)*(b.x-a.x) + (b.y-a.y)*(b.y-a.y);
+}
+
+static bool covers_seg_iter(struct tg_segment seg, int index, void *udata) {
+    (void)index;
+    struct covers_seg_iter_ctx *ctx = udata;
+    if (!tg_segment_covers_point(seg, ctx->reach)) {
+        return true;
     }
-    // locate the first "other" segment that contains the first "line" segment.
-    int ansegs = tg_line_num_segments(a);
-    int j = -1;
-    for (int k = 0; k < ansegs; k++) {
-        if (tg_segment_covers_segment(tg_line_segment_at(a, k),
-            tg_line_segment_at(b, 0)))
+    struct tg_point ends[] = { seg.a, seg.b };
+    if (tg_segment_covers_point(seg, ctx->seg.b)) {
+        ends[0] = ctx->seg.b;
+    }
+    for (int i = 0; i < 2; i++) {
+        if (tg_segment_covers_point(ctx->seg, ends[i]) && 
+            reach_len2(ctx->seg.a, ends[i]) > 
+            reach_len2(ctx->seg.a, ctx->reach))
         {
-            j = k;
-            break;
+            ctx->reach = ends[i];
+            ctx->more = true;
         }
     }
-    if (j == -1) {
+    return !pteq(ctx->reach, ctx->seg.b);
+}
+
+bool tg_line_covers_line(const struct tg_line *a, const struct tg_line *b) {
+    if (tg_line_empty(a) || tg_line_empty(b)) return false;
+
+    if (!tg_rect_covers_rect(tg_line_rect(a), tg_line_rect(b))) {
         return false;
     }
+    // Each segment of b must be covered by one or more segments of a.
     int bnsegs = tg_line_num_segments(b);
-    for (int i = 1; i < bnsegs && j < ansegs; i++) {
-        struct tg_segment aseg = tg_line_segment_at(a, j);
-        struct tg_segment bseg = tg_line_segment_at(b, i);
-        if (tg_segment_covers_segment(aseg, bseg)) {
+    for (int i = 0; i < bnsegs; i++) {
+        struct tg_segment seg = tg_line_segment_at(b, i);
+        struct covers_seg_iter_ctx ctx = { .seg = seg, .reach = seg.a };
+        if (pteq(seg.a, seg.b)) {
+            if (!tg_line_covers_point(a, seg.a)) return false;
             continue;
         }
-        if (pteq(bseg.a, aseg.a)) {
-            // reverse it
-            if (j == 0) {
-                return false;
-            }
-            j--;
-            i--;
-        } else if (pteq(bseg.a, aseg.b)) {
-            // forward it
-            j++;
-            i--;
-        }
+        do {
+            ctx.more = false;
+            tg_line_search(a, tg_segment_rect(seg), covers_seg_iter, &ctx);
+        } while (ctx.more && !pteq(ctx.reach, seg.b));
+        if (!pteq(ctx.reach, seg.b)) return false;
     }
     return true;
 }
-- 
2.43.0


From bbfd48b1118c5ad4463906df6a9393cb73b0159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 18/50] fix: end point of a closed line was treated as a
 boundary

---
 tg.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/tg.c b/tg.c
index c581023..7083d8d 100644
--- a/tg.c
+++ b/tg.c
@@ -1119,6 +1119,10 @@ bool tg_point_touches_line(struct tg_point point, const struct tg_line *line) {
     }
     struct tg_segment s0 = tg_line_segment_at(line, 0);
     struct tg_segment sN = tg_line_segment_at(line, nsegs-1);
+    if (pteq(s0.a, sN.b)) {
+        // closed line has no boundary
+        return false;
+    }
     return pteq(point, s0.a) || pteq(point, sN.b);
 }
 
@@ -3466,13 +3470,7 @@ bool tg_line_contains_point(const struct tg_line *line, struct tg_point point) {
     if (!tg_line_covers_point(line, point)) {
         return false;
     }
-    int nsegs = tg_line_num_segments(line);
-    if (pteq(point, tg_line_segment_at(line, 0).a) || 
-        pteq(point, tg_line_segment_at(line, nsegs-1).b))
-    {
-        return false;
-    }
-    return true;
+    return !tg_point_touches_line(point, line);
 }
 
 /// Tests whether a line intersects a point
@@ -3574,8 +3572,8 @@ enum segment_intersects_kind {
 
 struct segment_intersects_iter_ctx {
     bool yes;
-    int ansegs;
-    int bnsegs;
+    int ansegs;   // zero if closed, thus has no end points
+    int bnsegs;   // zero if closed, thus has no end points
     enum segment_intersects_kind kind;
 };
 
@@ -3600,9 +3598,9 @@ static bool segment_touches0(struct tg_segment seg,
 static bool any_touching(struct tg_segment a, int aidx, int ansegs,
     struct tg_segment b, int bidx, int bnsegs)
 {
-    return (aidx == 0 && segment_touches0(b, a.a, a.b)) ||
+    return (ansegs && aidx == 0 && segment_touches0(b, a.a, a.b)) ||
            (aidx == ansegs-1 && segment_touches0(b, a.b, a.a)) ||
-           (bidx == 0 && segment_touches0(a, b.a, b.b)) ||
+           (bnsegs && bidx == 0 && segment_touches0(a, b.a, b.b)) ||
            (bidx == bnsegs-1 && segment_touches0(a, b.b, b.a));
 }
 
@@ -3625,13 +3623,19 @@ static bool segment_intersects_iter(struct tg_segment a, int aidx,
     return false;
 }
 
+static bool line_closed(const struct tg_line *line) {
+    int nsegs = tg_line_num_segments(line);
+    return nsegs > 0 && pteq(tg_line_segment_at(line, 0).a, 
+        tg_line_segment_at(line, nsegs-1).b);
+}
+
 static bool line_intersects_line(const struct tg_line *a, 
     const struct tg_line *b, enum segment_intersects_kind kind)
 {
     struct segment_intersects_iter_ctx ctx = { 
         .kind = kind,
-        .ansegs = tg_line_num_segments(a),
-        .bnsegs = tg_line_num_segments(b),
+        .ansegs = line_closed(a) ? 0 : tg_line_num_segments(a),
+        .bnsegs = line_closed(b) ? 0 : tg_line_num_segments(b),
      };
     tg_line_line_search(a, b, segment_intersects_iter, &ctx);
     return ctx.yes;
-- 
2.43.0


From af93559299968c98efa20009ba3fe871fa8eb66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 19/50] fix: polygon-contains-line required every segment to
 enter the interior

---
 tg.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 7083d8d..a957e42 100644
--- a/tg.c
+++ b/tg.c
@@ -3247,15 +3247,18 @@ bool tg_ring_contains_line(const struct tg_ring *a, const struct tg_line *b,
         // outer ring is concave so let's make sure that all inner segments are
         // fully contained inside of the outer ring.
         int nsegs = tg_line_num_segments(b);
+        bool inside = false;
         for (int i = 0; i < nsegs; i++) {
             struct tg_segment seg = line_segment_at(b, i);
             if (!tg_ring_contains_segment(a, seg, true)) {
                 return false;
             }
-            if (!tg_ring_intersects_segment(a, seg, false)) {
-                return false;
+            if (!inside && tg_ring_intersects_segment(a, seg, false)) {
+                inside = true;
             }
         }
+        // at least one segment must be on the inside
+        return inside;
     } else {
         // outer ring is concave so let's make sure that all inner segments are
         // fully contained inside of the outer ring.
-- 
2.43.0


From 87cf3857d52ea0b575cf2731a3fee88be0fc4315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 20/50] fix: lines with a nested collinear segment were
 reported as touching

---
 tg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index a957e42..c66d9df 100644
--- a/tg.c
+++ b/tg.c
@@ -3590,10 +3590,12 @@ static bool segment_touches0(struct tg_segment seg,
         return true;
     }
     if (pteq(seg.a, a)) {
-        return !tg_segment_covers_point((struct tg_segment){ a, b }, seg.b);
+        return !tg_segment_covers_point((struct tg_segment){ a, b }, seg.b) &&
+               !tg_segment_covers_point(seg, b);
     }
     if (pteq(seg.b, a)) {
-        return !tg_segment_covers_point((struct tg_segment){ a, b }, seg.a);
+        return !tg_segment_covers_point((struct tg_segment){ a, b }, seg.a) &&
+               !tg_segment_covers_point(seg, b);
     }
     return false;
 }
-- 
2.43.0


From b6752c6b68469de35ea1e2439a48be93a0a6df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 21/50] fix: segments sharing a vertex with a ring were
 classified by heuristics

A segment that started or ended at a ring vertex, or passed over one, could be
reported as contained by a concave polygon that it was outside of, and as
entering (or not entering) the interior of a polygon. Classify every part of
the segment by the ring edges that it meets.
---
 tg.c | 268 +++++++++++++++++++----------------------------------------
 1 file changed, 85 insertions(+), 183 deletions(-)

diff --git a/tg.c b/tg.c
index c66d9df..12e8cb5 100644
--- a/tg.c
+++ b/tg.c
@@ -2865,68 +2865,87 @@ bool tg_ring_clockwise(const struct tg_ring *ring) {
     return ring->clockwise;
 }
 
-struct contsegiterctx {
+// side_of_line returns 1 if the point is left of the line a-b, -1 if it's on the
+// right, and zero if it's on the line.
+static int side_of_line(struct tg_point a, struct tg_point b, struct tg_point p)
+{
+    if (collinear(a.x, a.y, b.x, b.y, p.x, p.y)) return 0;
+    return (b.x-a.x)*(p.y-a.y) - (b.y-a.y)*(p.x-a.x) > 0 ? 1 : -1;
+}
+
+static bool same_direction(struct tg_point v, struct tg_point a, 
+    struct tg_point b)
+{
+    return side_of_line(v, a, b) == 0 && 
+        (a.x-v.x)*(b.x-v.x) + (a.y-v.y)*(b.y-v.y) > 0;
+}
+
+struct segpartsctx {
+    const struct tg_ring *ring;
     struct tg_segment seg;
-    bool intersects;
+    bool in;       // some part of seg is strictly inside of the ring
+    bool out;      // some part of seg is strictly outside of the ring
+    bool stop_in;  // stop searching when in is true
+    bool stop_out; // stop searching when out is true
 };
 
-static bool contsegiter1(struct tg_segment seg2, int index, void *udata) {
-    (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(seg2, ctx->seg.a) != TG_ON && 
-            tg_raycast(seg2, ctx->seg.b) != TG_ON)
-        {
-            ctx->intersects = true;
-            return false;
-        }
-    }
-    return true;
+// segparts_side adds the side that some part of the segment is on.
+static void segparts_side(struct segpartsctx *ctx, int side) {
+    if (ctx->ring->clockwise) side = -side;
+    if (side > 0) ctx->in = true;
+    if (side < 0) ctx->out = true;
 }
 
-static bool contsegiter4(struct tg_segment seg2, int index, void *udata) {
-    (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(seg2, ctx->seg.a) != TG_ON) {
-            ctx->intersects = true;
-            return false;
-        }
+// segparts_vertex adds the part of the segment that starts at the ring vertex
+// v and goes toward p. The vertex comes after u and before w.
+static void segparts_vertex(struct segpartsctx *ctx, struct tg_point u,
+    struct tg_point v, struct tg_point w, struct tg_point p)
+{
+    if (pteq(v, p) || same_direction(v, u, p) || same_direction(v, w, p)) {
+        return;
     }
-    return true;
+    bool left1 = side_of_line(u, v, p) > 0;
+    bool left2 = side_of_line(v, w, p) > 0;
+    bool left = side_of_line(u, v, w) < 0 ? left1 || left2 : left1 && left2;
+    segparts_side(ctx, left ? 1 : -1);
 }
 
-static bool contsegiter2(struct tg_segment seg2, int index, void *udata) {
-    (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(seg2, ctx->seg.b) != TG_ON) {
-            ctx->intersects = true;
-            return false;
-        }
-    }
-    return true;
-}
-static bool contsegiter5(struct tg_segment seg2, int index, void *udata) {
-    (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(ctx->seg, seg2.a) != TG_ON && 
-            tg_raycast(ctx->seg, seg2.b) != TG_ON)
-        {
-            ctx->intersects = true;
-            return false;
-        }
+static bool segparts_iter(struct tg_segment edge, int index, void *udata) {
+    struct segpartsctx *ctx = udata;
+    struct tg_segment seg = ctx->seg;
+    if (pteq(edge.a, edge.b)) {
+        return true;
     }
-    return true;
+    if (tg_segment_covers_point(seg, edge.b)) {
+        // The segment passes over a ring vertex.
+        const struct tg_ring *ring = ctx->ring;
+        struct tg_point next;
+        do {
+            index = index+1 < ring->nsegs ? index+1 : 0;
+            next = ring->points[index+1];
+        } while (pteq(edge.b, next));
+        segparts_vertex(ctx, edge.a, edge.b, next, seg.a);
+        segparts_vertex(ctx, edge.a, edge.b, next, seg.b);
+    } else if (tg_segment_covers_point(seg, edge.a)) {
+        // Covered by the previous edge
+    } else if (tg_segment_covers_point(edge, seg.a)) {
+        segparts_side(ctx, side_of_line(edge.a, edge.b, seg.b));
+    } else if (tg_segment_covers_point(edge, seg.b)) {
+        segparts_side(ctx, side_of_line(edge.a, edge.b, seg.a));
+    } else if (tg_segment_intersects_segment(seg, edge)) {
+        // The segment and edge are crossing
+        ctx->in = true;
+        ctx->out = true;
+    }
+    return !((ctx->stop_in && ctx->in) || (ctx->stop_out && ctx->out));
 }
 
 static bool contsegiter3(struct tg_segment seg2, int index, void *udata) {
     (void)index;
-    struct contsegiterctx *ctx = udata;
+    struct segpartsctx *ctx = udata;
     if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-            ctx->intersects = true;
-            return false;
+        ctx->out = true;
+        return false;
     }
     return true;
 }
@@ -2960,111 +2979,19 @@ bool tg_ring_contains_segment(const struct tg_ring *ring,
 
     // The ring is concave so it's possible that the segment crosses over the
     // edge of the ring.
-    if (allow_on_edge) {
-        // do some logic around seg points that are on the edge of the ring.
-        if (res_a.idx != -1) {
-           // seg A is on a ring segment
-            if (res_b.idx != -1) {
-                // seg B is on a ring segment
-                if (res_b.idx == res_a.idx) {
-                    // seg A and B share the same ring segment, so it must be
-                    // on the inside.
-                    return true;
-                }
-
-                // seg A and seg B are on different segments.
-                // determine if the space that the seg passes over is inside or
-                // outside of the ring. To do so we create a ring from the two
-                // ring segments and check if that ring winding order matches
-                // the winding order of the ring.
-                // -- create a ring
-
-                struct tg_segment r_seg_a = ring_segment_at(ring, res_a.idx);
-                struct tg_segment r_seg_b = ring_segment_at(ring, res_b.idx);
-                if (pteq(r_seg_a.a, seg.a) || pteq(r_seg_a.b, seg.a) ||
-                    pteq(r_seg_b.a, seg.a) || pteq(r_seg_b.b, seg.a) ||
-                    pteq(r_seg_a.a, seg.b) || pteq(r_seg_a.b, seg.b) ||
-                    pteq(r_seg_b.a, seg.b) || pteq(r_seg_b.b, seg.b))
-                {
-                    return true;
-                }
-
-                // fix the order of the
-                if (res_b.idx < res_a.idx) {
-                    struct tg_segment tmp = r_seg_a;
-                    r_seg_a = r_seg_b;
-                    r_seg_b = tmp;
-                }
-
-                struct tg_point pts[] = {
-                    r_seg_a.a, r_seg_a.b, r_seg_b.a, r_seg_b.b, r_seg_a.a
-                };
-                // -- calc winding order
-                double cwc = 0.0;
-                for (int i = 0; i < 4; i++) {
-                    struct tg_point a = pts[i];
-                    struct tg_point b = pts[i+1];
-                    cwc += (b.x - a.x) * (b.y + a.y);
-                }
-                bool clockwise = cwc > 0;
-                if (clockwise != ring->clockwise) {
-                    // -- on the outside
-                    return false;
-                }
-                // the passover space is on the inside of the ring.
-                // check if seg intersects any ring segments where A and B are
-                // not on.
-                struct contsegiterctx ctx = {
-                    .intersects = false,
-                    .seg = seg,
-                };
-                tg_ring_search(ring, tg_segment_rect(seg), contsegiter1, &ctx);
-                return !ctx.intersects;
-            }
-            // case (4)
-            // seg A is on a ring segment, but seg B is not.
-            // check if seg intersects any ring segments where A is not on.
-            struct contsegiterctx ctx = {
-                .intersects = false,
-                .seg = seg,
-            };
-            tg_ring_search(ring, tg_segment_rect(seg), contsegiter4, &ctx);
-            return !ctx.intersects;
-        } else if (res_b.idx != -1) {
-            // case (2)
-            // seg B is on a ring segment, but seg A is not.
-            // check if seg intersects any ring segments where B is not on.
-            struct contsegiterctx ctx = {
-                .intersects = false,
-                .seg = seg,
-            };
-            tg_ring_search(ring, tg_segment_rect(seg), contsegiter2, &ctx);
-            return !ctx.intersects;
-        }
-        // case (5) (15)
-        struct contsegiterctx ctx = {
-            .intersects = false,
-            .seg = seg,
-        };
-        tg_ring_search(ring, tg_segment_rect(seg), contsegiter5, &ctx);
-        return !ctx.intersects;
-    }
-    // allow_on_edge is false. (not allow on edge)
-    struct contsegiterctx ctx = {
-        .intersects = false,
+    struct segpartsctx ctx = {
+        .ring = ring,
         .seg = seg,
+        .stop_out = true,
     };
-    tg_ring_search(ring, tg_segment_rect(seg), contsegiter3, &ctx);
-    return !ctx.intersects;
+    tg_ring_search(ring, tg_segment_rect(seg), 
+        allow_on_edge ? segparts_iter : contsegiter3, &ctx);
+    return !ctx.out;
 }
 
 struct intersegiterctx {
     struct tg_segment seg;
     int count;
-    bool allow_on_edge;
-    bool seg_a_on;
-    bool seg_b_on;
-    // bool yes;
 };
 
 static bool intersegiter(struct tg_segment seg, int index, void *udata) {
@@ -3074,39 +3001,7 @@ static bool intersegiter(struct tg_segment seg, int index, void *udata) {
     if (!tg_segment_intersects_segment(ctx->seg, seg)) {
         return true;
     }
-    if (ctx->allow_on_edge) {
-        ctx->count++;
-        return ctx->count < 2;
-    }
-
-    struct tg_point a = ctx->seg.a;
-    struct tg_point b = ctx->seg.b;
-    struct tg_point c = seg.a;
-    struct tg_point d = seg.b;
-
-    // bool acol = collinear(c.x, c.y, d.x, d.y, a.x, a.y);
-    // bool bcol = collinear(c.x, c.y, d.x, d.y, b.x, b.y);
-    bool ccol = collinear(a.x, a.y, b.x, b.y, c.x, c.y);
-    bool dcol = collinear(a.x, a.y, b.x, b.y, d.x, d.y);
-
-    if (ccol && dcol) {
-        // lines are parallel.
-        ctx->count = 0;
-    } else if (!ccol || !dcol) {
-        if (!ctx->seg_a_on) {
-            if (pteq(a, c) || pteq(a, d)) {
-                ctx->seg_a_on = true;
-                return true;
-            }
-        }
-        if (!ctx->seg_b_on) {
-            if (pteq(b, c) || pteq(b, d)) {
-                ctx->seg_b_on = true;
-                return true;
-            }
-        }
-        ctx->count++;
-    }
+    ctx->count++;
     return ctx->count < 2;
 }
 
@@ -3126,10 +3021,17 @@ bool tg_ring_intersects_segment(const struct tg_ring *ring,
     // Neither point A or B is inside of the ring. It's possible that both
     // are on the outside and are passing over segments. If the segment passes
     // over at least two ring segments then it's intersecting.
-    struct intersegiterctx ctx = { 
-        .seg = seg,
-        .allow_on_edge = allow_on_edge,
-    };
+    if (!allow_on_edge) {
+        // Some part of the segment must be strictly inside of the ring.
+        struct segpartsctx ctx = { 
+            .ring = ring,
+            .seg = seg,
+            .stop_in = true,
+        };
+        tg_ring_search(ring, tg_segment_rect(seg), segparts_iter, &ctx);
+        return ctx.in;
+    }
+    struct intersegiterctx ctx = { .seg = seg };
     tg_ring_search(ring, tg_segment_rect(seg), intersegiter, &ctx);
     return ctx.count >= 2;
 }
-- 
2.43.0


From 0ac838f5ec4ada1292c163d494c55042c39bae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 22/50] fix: a bigger ring entering a smaller one was missed

tg_ring_intersects_ring() without edges only looked for parts of the smaller
ring inside of the bigger ring. A polygon was reported as covering another
one that had a concave hole inscribed in it.
---
 tg.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tg.c b/tg.c
index 12e8cb5..d3151ee 100644
--- a/tg.c
+++ b/tg.c
@@ -3114,6 +3114,17 @@ bool tg_ring_intersects_ring(const struct tg_ring *ring,
             return true;
         }
     }
+    if (!allow_on_edge) {
+        // The bigger ring may enter the smaller ring without the smaller
+        // ring entering the bigger ring.
+        for (int i = 0; i < ring->nsegs; i++) {
+            if (tg_ring_intersects_segment(other, ring_segment_at(ring, i),
+                false))
+            {
+                return true;
+            }
+        }
+    }
     return false;
 }
 
-- 
2.43.0


From 1cadda428156ff79a3abf311fbec93c65cffca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 23/50] fix: touches between polygons and lines missed contacts
 away from vertices

A line passing over a polygon vertex, a line along a hole edge, and polygons
touching while having other edges apart were not reported as touching; and a
line along the edge of a hole was reported as contained.
---
 tg.c | 127 ++++++++++++++++++++---------------------------------------
 1 file changed, 43 insertions(+), 84 deletions(-)

diff --git a/tg.c b/tg.c
index d3151ee..d122f47 100644
--- a/tg.c
+++ b/tg.c
@@ -3950,6 +3950,24 @@ bool tg_poly_covers_line(const struct tg_poly *a, const struct tg_line *b) {
     return true;
 }
 
+// poly_interior_intersects_segment returns true if some part of the segment is
+// strictly inside of the polygon; which is inside of the exterior ring and not
+// covered by a hole.
+static bool poly_interior_intersects_segment(const struct tg_poly *poly,
+    struct tg_segment seg)
+{
+    if (!tg_ring_intersects_segment(tg_poly_exterior(poly), seg, false)) {
+        return false;
+    }
+    int nholes = tg_poly_num_holes(poly);
+    for (int i = 0; i < nholes; i++) {
+        if (tg_ring_contains_segment(tg_poly_hole_at(poly, i), seg, true)) {
+            return false;
+        }
+    }
+    return true;
+}
+
 bool tg_poly_contains_line(const struct tg_poly *a, const struct tg_line *b) {
     if (tg_poly_empty(a) || tg_line_empty(b)) {
         return false;
@@ -3963,7 +3981,15 @@ bool tg_poly_contains_line(const struct tg_poly *a, const struct tg_line *b) {
             return false;
         }
     }
-    return true;
+    // At least one segment must have a part in the interior. Being along the
+    // edge of a hole is not enough.
+    int nsegs = nholes == 0 ? 0 : tg_line_num_segments(b);
+    for (int i = 0; i < nsegs; i++) {
+        if (poly_interior_intersects_segment(a, line_segment_at(b, i))) {
+            return true;
+        }
+    }
+    return nholes == 0;
 }
 
 /// Tests whether a polygon intersects a line.
@@ -4093,45 +4119,14 @@ bool tg_poly_touches_line(const struct tg_poly *a, const struct tg_line *b) {
         return false;
     }
 
-    // Check if the line is inside any of the polygon holes
-    int npoints = tg_line_num_points(b);
-    int nholes = tg_poly_num_holes(a);
-    for (int i = 0; i < nholes; i++) {
-        const struct tg_ring *hole = tg_poly_hole_at(a, i);
-        if (tg_ring_contains_line(hole, b, true, false)) {
-            // Yes, now check if any of the points touch the hole boundary.
-            for (int j = 0; j < npoints; j++) {
-                struct tg_point point = tg_line_point_at(b, j);
-                if (tg_line_covers_point((struct tg_line*)hole, point)) {
-                    return true;
-                }
-            }
-            return false;
-        }
-    }
-
-    // Check if at least one line point touches the polygon exterior.
-    const struct tg_ring *ring = tg_poly_exterior(a);
-    bool touches = false;
-    for (int i = 0; i < npoints; i++) {
-        struct tg_point point = tg_line_point_at(b, i);
-        // Cast the exterior ring to a polygon to avoid holes.
-        if (tg_poly_touches_point((struct tg_poly*)ring, point)) {
-            touches = true;
-            break;
-        }
-    }
-    if (!touches) {
-        return false;
-    }
+    // Touching is intersecting without sharing any part of the interiors.
     int nsegs = tg_line_num_segments(b);
     for (int i = 0; i < nsegs; i++) {
-        struct tg_segment seg = tg_line_segment_at(b, i);
-        if (tg_ring_intersects_segment(ring, seg, false)) {
+        if (poly_interior_intersects_segment(a, line_segment_at(b, i))) {
             return false;
         }
     }
-    return true;
+    return tg_poly_intersects_line(a, b);
 }
 
 bool tg_poly_touches_poly(const struct tg_poly *a, const struct tg_poly *b) {
@@ -4139,65 +4134,29 @@ bool tg_poly_touches_poly(const struct tg_poly *a, const struct tg_poly *b) {
         return false;
     }
     
+    if (!tg_poly_intersects_poly(a, b)) {
+        return false;
+    }
+
+    // Touching is intersecting without sharing any part of the interiors.
     const struct tg_ring *aext = tg_poly_exterior(a);
     const struct tg_ring *bext = tg_poly_exterior(b);
-
-    // Check if one polygon is fully inside a hole of the other and touching
-    // the hole boundary.
     for (int ii = 0; ii < 2; ii++) {
         const struct tg_poly *poly = ii == 0 ? a : b; 
         const struct tg_ring *ring = ii == 0 ? bext : aext; 
-        int nholes = tg_poly_num_holes(poly);
-        for (int i = 0; i < nholes; i++) {
-            const struct tg_ring *hole = tg_poly_hole_at(poly, i);
-            if (tg_ring_contains_ring(hole, ring, true)) {
-                // Yes, now check if any exterior points are on the other 
-                // hole boundary.
-                int npoints = tg_ring_num_points(ring);
-                for (int j = 0; j < npoints; j++) {
-                    struct tg_point point = tg_ring_point_at(ring, j);
-                    if (tg_line_covers_point((struct tg_line*)hole, point)) {
-                        // Touching
-                        return true;
-                    }
-                }
-                // Not touching and full enclosed in a hole.
-                return false;
-            }
-        }
-    }
-    
-    // Now we can work with the exterior rings only.
-    // Check if one polygon is touching the other
-    int ansegs = tg_ring_num_segments(aext);
-    int bnsegs = tg_ring_num_segments(bext);
-    int atouches = 0;
-    int btouches = 0;
-    for (int ii = 0; ii < 2; ii++) {
-        const struct tg_ring *a = ii == 0 ? aext : bext; 
-        const struct tg_ring *b = ii == 0 ? bext : aext; 
-        int nsegs = ii == 0 ? bnsegs : ansegs;
-        int touches = 0;
+        int nsegs = tg_ring_num_segments(ring);
         for (int i = 0; i < nsegs; i++) {
-            struct tg_segment seg = tg_ring_segment_at(b, i);
-            bool isects0 = tg_ring_intersects_segment(a, seg, true);
-            bool isects1 = tg_ring_intersects_segment(a, seg, false);
-            if (isects0 && !isects1) {
-                touches++;
-            } else if (isects0 || isects1) {
+            if (poly_interior_intersects_segment(poly, 
+                ring_segment_at(ring, i)))
+            {
                 return false;
             }
         }
-        if (ii == 0) {
-            btouches = touches;
-        } else {
-            atouches = touches;
-        }
-    }
-    if (atouches > 0 || btouches > 0) {
-        return !(atouches == ansegs && btouches == bnsegs);
     }
-    return false;
+    // Neither exterior enters the other polygon. Make sure that they are not
+    // the same.
+    return !(tg_ring_contains_ring(aext, bext, true) && 
+             tg_ring_contains_ring(bext, aext, true));
 }
 
 struct tg_poly *tg_poly_move(const struct tg_poly *poly, double delta_x, 
-- 
2.43.0


From 9f4b1246705a09fb3ddfbb4d98f1daad668f39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 24/50] fix: points and lines touched a collection that they
 also crossed

A point or line was touching a multi geometry or collection when any child was
touched, even when it intersected the interior of another child. The other way
around, and for polygons, those children are checked too.
---
 tg.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/tg.c b/tg.c
index d122f47..5c8369a 100644
--- a/tg.c
+++ b/tg.c
@@ -6247,16 +6247,20 @@ static bool point_touches_base_geom(struct tg_point point,
         case TG_MULTIPOINT: 
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION:
+        case TG_GEOMETRYCOLLECTION: {
+            bool touches = false;
             if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (point_touches_geom(point, geom->multi->geoms[i])) {
-                        return true;
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    if (point_touches_geom(point, child)) {
+                        touches = true;
+                    } else if (point_intersects_geom(point, child)) {
+                        return false;
                     }
                 }
             }
-            return false;
-        }
+            return touches;
+        }}
     }
     return false;
 }
@@ -6299,16 +6303,20 @@ static bool line_touches_base_geom(struct tg_line *line,
         case TG_MULTIPOINT: 
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION: 
+        case TG_GEOMETRYCOLLECTION: {
+            bool touches = false;
             if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (line_touches_geom(line, geom->multi->geoms[i])) {
-                        return true;
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    if (line_touches_geom(line, child)) {
+                        touches = true;
+                    } else if (line_intersects_geom(line, child)) {
+                        return false;
                     }
                 }
             }
-            return false;
-        }
+            return touches;
+        }}
     }
     return false;
 }
-- 
2.43.0


From 9d41ee2fc305f2d09fab22bb05498a15778fa2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 25/50] fix: empty children kept a collection from being
 covered

Covers and contains skip empty children when the container is a collection,
but not when it's a point, line, or polygon.
---
 tg.c | 75 ++++++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/tg.c b/tg.c
index 5c8369a..aa9770a 100644
--- a/tg.c
+++ b/tg.c
@@ -5693,15 +5693,20 @@ static bool point_covers_base_geom(struct tg_point point,
         case TG_MULTIPOINT:
         case TG_MULTILINESTRING:
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION: 
-            if (!geom->multi || geom->multi->ngeoms == 0) return false;
-            for (int i = 0; i < geom->multi->ngeoms; i++) {
-                if (!point_covers_geom(point, geom->multi->geoms[i])) {
-                    return false;
+        case TG_GEOMETRYCOLLECTION: {
+            bool covers = false;
+            if (geom->multi) {
+                for (int i = 0; i < geom->multi->ngeoms; i++) {
+                    // skip empty geometries
+                    if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
+                    if (!point_covers_geom(point, geom->multi->geoms[i])) {
+                        return false;
+                    }
+                    covers = true;
                 }
             }
-            return true;
-        }
+            return covers;
+        }}
     }
     return false;
 }
@@ -5744,15 +5749,20 @@ static bool line_covers_base_geom(struct tg_line *line,
         case TG_MULTIPOINT: 
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION: 
-            if (!geom->multi || geom->multi->ngeoms == 0) return false;
-            for (int i = 0; i < geom->multi->ngeoms; i++) {
-                if (!line_covers_geom(line, geom->multi->geoms[i])) {
-                    return false;
+        case TG_GEOMETRYCOLLECTION: {
+            bool covers = false;
+            if (geom->multi) {
+                for (int i = 0; i < geom->multi->ngeoms; i++) {
+                    // skip empty geometries
+                    if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
+                    if (!line_covers_geom(line, geom->multi->geoms[i])) {
+                        return false;
+                    }
+                    covers = true;
                 }
             }
-            return true;
-        }
+            return covers;
+        }}
     }
     return false;
 }
@@ -5795,15 +5805,20 @@ static bool poly_covers_base_geom(struct tg_poly *poly,
         case TG_MULTIPOINT: 
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION: 
-            if (!geom->multi || geom->multi->ngeoms == 0) return false;
-            for (int i = 0; i < geom->multi->ngeoms; i++) {
-                if (!poly_covers_geom(poly, geom->multi->geoms[i])) {
-                    return false;
+        case TG_GEOMETRYCOLLECTION: {
+            bool covers = false;
+            if (geom->multi) {
+                for (int i = 0; i < geom->multi->ngeoms; i++) {
+                    // skip empty geometries
+                    if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
+                    if (!poly_covers_geom(poly, geom->multi->geoms[i])) {
+                        return false;
+                    }
+                    covers = true;
                 }
             }
-            return true;
-        }
+            return covers;
+        }}
     }
     return false;
 }
@@ -5981,13 +5996,15 @@ static bool poly_contains_base_geom(struct tg_poly *poly,
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: {
             bool contains = false;
-            if (geom->multi && geom->multi->ngeoms > 0) {
-                contains = true;
+            if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
+                    // skip empty geometries
+                    if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
                     if (!poly_contains_geom(poly, geom->multi->geoms[i])) {
                         contains = false;
                         break;
                     }
+                    contains = true;
                 }
             }
             return contains;
@@ -6036,13 +6053,15 @@ static bool line_contains_base_geom(struct tg_line *line,
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: {
             bool contains = false;
-            if (geom->multi && geom->multi->ngeoms > 0) {
-                contains = true;
+            if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
+                    // skip empty geometries
+                    if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
                     if (!line_contains_geom(line, geom->multi->geoms[i])) {
                         contains = false;
                         break;
                     }
+                    contains = true;
                 }
             }
             return contains;
@@ -6092,13 +6111,15 @@ static bool point_contains_base_geom(struct tg_point point,
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: {
             bool contains = false;
-            if (geom->multi && geom->multi->ngeoms > 0) {
-                contains = true;
+            if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
+                    // skip empty geometries
+                    if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
                     if (!point_contains_geom(point, geom->multi->geoms[i])) {
                         contains = false;
                         break;
                     }
+                    contains = true;
                 }
             }
             return contains;
-- 
2.43.0


From 78a860e4006c3035238df5d00eff1a08352f67a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 26/50] fix: YSTRIPES lost a horizontal segment at the top of a
 ring

A segment at the maximum y has a stripe number equal to the number of stripes,
and was not put in any stripe. Points on it were reported as outside.
---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index aa9770a..10d0526 100644
--- a/tg.c
+++ b/tg.c
@@ -1704,7 +1704,7 @@ static bool process_ystripes(struct tg_ring *ring) {
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
         int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
         int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fmax0(min, 0);
+        min = fclamp0(min, 0, nstripes-1);
         max = fmin0(max, nstripes-1);
         for (int j = min; j <= max; j++) {
             ycounts[j]++;
@@ -1737,7 +1737,7 @@ static bool process_ystripes(struct tg_ring *ring) {
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
         int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
         int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fmax0(min, 0);
+        min = fclamp0(min, 0, nstripes-1);
         max = fmin0(max, nstripes-1);
         for (int j = min; j <= max; j++) {
             struct ystripe *stripe = &ystripes->stripes[j];
-- 
2.43.0


From 7bf5b1ea2b2cfbc740d7e09627c800e8425a7ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 27/50] fix: tg_geom_foreach() did not flatten nested
 collections or skip empties

As documented, it iterates over the children of children. A collection was not
found to cover or contain what its nested members cover.
---
 tg.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 10d0526..cc69648 100644
--- a/tg.c
+++ b/tg.c
@@ -5424,7 +5424,9 @@ static bool geom_foreach(const struct tg_geom *geom,
         case TG_GEOMETRYCOLLECTION:
             if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (!iter(geom->multi->geoms[i], udata)) return false;
+                    if (!geom_foreach(geom->multi->geoms[i], iter, udata)) {
+                        return false;
+                    }
                 }
             }
             return true;
@@ -5432,6 +5434,9 @@ static bool geom_foreach(const struct tg_geom *geom,
             break;
         }
     }
+    if (tg_geom_is_empty(geom)) {
+        return true;
+    }
     return iter(geom, udata);
 }
 
-- 
2.43.0


From fa4faa87497a251fa384589b276790fb9956c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:08 +0000
Subject: [PATCH 28/50] fix: empty children widened the rectangle of a
 collection to the origin

They were also reported by searches of boxes that hold the origin.
---
 tg.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/tg.c b/tg.c
index cc69648..8fc47c9 100644
--- a/tg.c
+++ b/tg.c
@@ -4462,6 +4462,15 @@ static int hilsort(const void *a, const void *b) {
     return ha->hilbert < hb->hilbert ? -1 : ha->hilbert > hb->hilbert;
 }
 
+// multi_child_rect returns the rectangle of a child for the purpose of indexing.
+// An empty child has none and is put somewhere inside of the parent.
+static struct tg_rect multi_child_rect(const struct multi *multi,
+    const struct tg_geom *child)
+{
+    return tg_geom_is_empty(child) ? tg_point_rect(multi->rect.min) : 
+        tg_geom_rect(child);
+}
+
 static bool multi_geom_inflate_index(struct multi *multi) {
     // inflate multi index base level and mbr in one pass
     struct index *index = multi->index;
@@ -4474,7 +4483,8 @@ static bool multi_geom_inflate_index(struct multi *multi) {
         return false;
     }
     for (int i = 0; i < multi->ngeoms; i++) {
-        struct tg_point center = tg_rect_center(tg_geom_rect(multi->geoms[i]));
+        struct tg_point center = 
+            tg_rect_center(multi_child_rect(multi, multi->geoms[i]));
         hildexes[i].index = i;
         hildexes[i].hilbert = tg_point_hilbert(center, multi->rect);
     }
@@ -4485,13 +4495,14 @@ static bool multi_geom_inflate_index(struct multi *multi) {
     tg_free(hildexes);
 
     struct ixrect ixrect;
-    struct tg_rect rect0 = tg_geom_rect(multi->geoms[multi->ixgeoms[0]]);
+    struct tg_rect rect0 = multi_child_rect(multi, 
+        multi->geoms[multi->ixgeoms[0]]);
     tg_rect_to_ixrect(&rect0, &ixrect);
     int j = 1;
     int k = 0;
     for (int i = 1; i < multi->ngeoms; i++) {
-        struct tg_rect rect = tg_geom_rect(multi->geoms[multi->ixgeoms[i]]);
-        multi->rect = tg_rect_expand(multi->rect, rect);
+        struct tg_rect rect = multi_child_rect(multi, 
+            multi->geoms[multi->ixgeoms[i]]);
         struct ixrect ixrect2;
         tg_rect_to_ixrect(&rect, &ixrect2);
         if (j == spread) {
@@ -4537,10 +4548,15 @@ static struct tg_geom *multi_geom_inflate_rect(struct tg_geom *geom) {
         geom->multi->rect = (struct tg_rect){ 0 };
         return geom;
     }
-    geom->multi->rect = tg_geom_rect(geom->multi->geoms[0]);
-    for (int i = 1; i < geom->multi->ngeoms; i++) {
+    bool first = true;
+    geom->multi->rect = (struct tg_rect){ 0 };
+    for (int i = 0; i < geom->multi->ngeoms; i++) {
+        // Empty children have no rectangle
+        if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
         struct tg_rect rect = tg_geom_rect(geom->multi->geoms[i]);
-        geom->multi->rect = tg_rect_expand(geom->multi->rect, rect);
+        geom->multi->rect = first ? rect :
+            tg_rect_expand(geom->multi->rect, rect);
+        first = false;
     }
     if (geom->multi->index) {
         if (!multi_geom_inflate_index(geom->multi)) {
@@ -15296,7 +15312,9 @@ static bool multi_index_search(const struct multi *multi, struct tg_rect rect,
         for (int i = s; i < e; i++) {
             int index = multi->ixgeoms[i];
             const struct tg_geom *child = multi->geoms[index];
-            if (tg_rect_intersects_rect(tg_geom_rect(child), rect)) {
+            if (!tg_geom_is_empty(child) &&
+                tg_rect_intersects_rect(tg_geom_rect(child), rect))
+            {
                 if (!iter(child, index, udata)) {
                     return false;
                 }
@@ -15344,7 +15362,9 @@ void tg_geom_search(const struct tg_geom *geom, struct tg_rect rect,
         // sequential search
         for (int i = 0; i < multi->ngeoms; i++) {
             const struct tg_geom *child = multi->geoms[i];
-            if (tg_rect_intersects_rect(tg_geom_rect(child), rect)) {
+            if (!tg_geom_is_empty(child) &&
+                tg_rect_intersects_rect(tg_geom_rect(child), rect))
+            {
                 if (!iter(child, i, udata)) {
                     return;
                 }
@@ -15785,6 +15805,7 @@ int tg_geom_fullrect(const struct tg_geom *geom, double min[4], double max[4]) {
             int ngeoms = geom->multi->ngeoms;
             double gmin[4], gmax[4];
             for (int i = 0; i < ngeoms; i++) {
+                if (tg_geom_is_empty(geoms[i])) continue;
                 int gdims = tg_geom_fullrect(geoms[i], gmin, gmax);
                 if (gdims >= 3) {
                     if (dims == 2) {
-- 
2.43.0


From c9e7810e12fdbd48184972181c24518a91205bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:56 +0000
Subject: [PATCH 29/50] fix: the last index rectangle of a line reached back to
 its first point

---
 tg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 8fc47c9..005ce5d 100644
--- a/tg.c
+++ b/tg.c
@@ -1987,7 +1987,10 @@ static struct tg_rect process_points(const struct tg_point *points,
         rect_inflate_point(&spreadrect, &a); \
         j++; \
         if (j == ixspread) { \
-            rect_inflate_point(&spreadrect, &b); \
+            if (i < nsegs) { \
+                /* the last point of a line does not start a segment */ \
+                rect_inflate_point(&spreadrect, &b); \
+            } \
             inflate_mbr_and_copy_next_index_rect(); \
             spreadrect.min = b; \
             spreadrect.max = b; \
-- 
2.43.0


From 6fa7d24b66930c7e9bf7197f9dd6539d3c2390ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 30/50] fix: WKT with more than 1024 groups was taken for one
 nested too deeply

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 005ce5d..2eccaca 100644
--- a/tg.c
+++ b/tg.c
@@ -12016,7 +12016,7 @@ static long wkt_balance_coords(const char *wkt, long len, long i) {
     for (; i < len; i++) {
         if (wkt[i] == '(') {
             depth++;
-            maxdepth++;
+            if (depth > maxdepth) maxdepth = depth;
         } else if (wkt[i] == ')') {
             depth--;
             if (depth == 0) {
-- 
2.43.0


From 38d2831aa9bd21ab639757b6d29d59a0ff854911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 31/50] fix: WKT accepted anything in parentheses after EMPTY

---
 tg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tg.c b/tg.c
index 2eccaca..2a73c2f 100644
--- a/tg.c
+++ b/tg.c
@@ -12702,6 +12702,10 @@ static struct tg_geom *parse_wkt(const char *wkt, long len, enum tg_index ix) {
         }
     }
     if (is_empty) {
+        if (i < len) {
+            return make_parse_error(
+                wkt_invalid_err("too much data after 'EMPTY'"));
+        }
         switch (type) {
         case TG_POINT: return tg_geom_new_point_empty();
         case TG_LINESTRING: return tg_geom_new_linestring_empty();
-- 
2.43.0


From f5e361a1ebf54534721e591d355b33fe6643dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 32/50] fix: WKT numbers with a leading point were accepted in
 points only

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 2a73c2f..645fa4c 100644
--- a/tg.c
+++ b/tg.c
@@ -11924,7 +11924,7 @@ static bool isws(char c) {
 }
 
 static bool isnum(char c) {
-    return c == '-' || (c >= '0' && c <= '9');
+    return c == '-' || c == '.' || (c >= '0' && c <= '9');
 }
 
 static long wkt_trim_ws(const char *wkt, long len, long i) {
-- 
2.43.0


From df40070b5e066d7c72c5bff513596f557fb57fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 33/50] fix: the Z and M bits of extended WKB type codes were
 ignored

---
 tg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tg.c b/tg.c
index 645fa4c..b27af15 100644
--- a/tg.c
+++ b/tg.c
@@ -13883,7 +13883,10 @@ static size_t parse_wkb(const uint8_t *wkb, size_t len, size_t i, int depth,
     read_uint32(type);
 
     bool has_srid = !!(type & 0x20000000);
+    int ext_zm = (type & 0x80000000 ? 1 : 0) | (type & 0x40000000 ? 2 : 0);
     type &= 0xFFFF;
+    // The dimensions are given as thousands, or as bits of the extended format.
+    type = type%1000 + (type/1000|ext_zm)*1000;
     int srid = 0;
     if (has_srid) {
         // Read the SRID from the extended wkb format.
-- 
2.43.0


From 0e6ccb8389f732d8785d93c49b81b875a6790442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 34/50] fix: JSON numbers of 512 or more characters were read
 as zero

---
 deps/json.c | 5 +++++
 tg.c        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/deps/json.c b/deps/json.c
index c06ad79..470c64a 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -849,6 +849,11 @@ JSON_EXTERN double json_double(struct json json) {
         if (jlen(json) < 3) return 0.0;
         return parse_double(jraw(json)+1, jlen(json)-2);
     case JSON_NUMBER:
+        if (jlen(json) >= 512 && jraw(json)+jlen(json) < jend(json)) {
+            // Too long to be copied. Read it in place, as the byte that 
+            // follows ends the number.
+            return strtod((char*)jraw(json), NULL);
+        }
         return parse_double(jraw(json), jlen(json));
     default:
         return 0.0;
diff --git a/tg.c b/tg.c
index b27af15..3137b8a 100644
--- a/tg.c
+++ b/tg.c
@@ -7577,6 +7577,11 @@ JSON_EXTERN double json_double(struct json json) {
         if (jlen(json) < 3) return 0.0;
         return parse_double(jraw(json)+1, jlen(json)-2);
     case JSON_NUMBER:
+        if (jlen(json) >= 512 && jraw(json)+jlen(json) < jend(json)) {
+            // Too long to be copied. Read it in place, as the byte that 
+            // follows ends the number.
+            return strtod((char*)jraw(json), NULL);
+        }
         return parse_double(jraw(json), jlen(json));
     default:
         return 0.0;
-- 
2.43.0


From 8d1d59dfc738fa94735a7bab93754d6f1e1965ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 35/50] fix: an empty point in a WKB MULTIPOINT became a point
 at the origin

---
 tg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tg.c b/tg.c
index 3137b8a..ecabf5d 100644
--- a/tg.c
+++ b/tg.c
@@ -13598,6 +13598,12 @@ static size_t parse_wkb_multipoint(const uint8_t *wkb, size_t len, size_t i,
             gerr = make_parse_error(wkb_invalid_child_type());
             goto fail;
         }
+        if (tg_geom_is_empty(point)) {
+            // There is no position to add.
+            tg_geom_free(point);
+            point = NULL;
+            continue;
+        }
         struct tg_point pt = tg_geom_point(point);
         if (!dvec_append(&posns, pt.x) || !dvec_append(&posns, pt.y)) goto fail;
         if (z || m) {
-- 
2.43.0


From fdc49dcfa5f7be83cabc22a09739fc2614ba2232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:33 +0000
Subject: [PATCH 36/50] fix: WKB multi geometries with Z or M rejected empty
 children

---
 tg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index ecabf5d..094c4cc 100644
--- a/tg.c
+++ b/tg.c
@@ -13570,7 +13570,9 @@ static bool wkb_type_match(const struct tg_geom *child, enum tg_geom_type type,
 {
     bool child_has_z = (child->head.flags&HAS_Z) == HAS_Z;
     bool child_has_m = (child->head.flags&HAS_M) == HAS_M;
-    return child->head.type == type && child_has_z == z && child_has_m == m;
+    if (child->head.type != type) return false;
+    if (tg_geom_is_empty(child)) return true; // has no dimensions
+    return child_has_z == z && child_has_m == m;
 }
 
 static size_t parse_wkb_multipoint(const uint8_t *wkb, size_t len, size_t i,
-- 
2.43.0


From c20142ccd0e66c169157e582cf0dcfd0014965b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:54 +0000
Subject: [PATCH 37/50] fix: an empty polygon in a MULTIPOLYGON was written to
 WKB as a ring without positions

---
 tg.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tg.c b/tg.c
index 094c4cc..aa34242 100644
--- a/tg.c
+++ b/tg.c
@@ -14100,6 +14100,10 @@ static int write_poly_points_wkb(struct writer *wr,
 {
     int count = 0;
     int nholes = tg_poly_num_holes(poly);
+    if (nholes == 0 && tg_poly_empty(poly)) {
+        write_uint32le(wr, 0);
+        return 0;
+    }
     write_uint32le(wr, 1+nholes);
     write_ring_points_wkb(wr, tg_poly_exterior(poly));
     for (int i = 0 ; i < nholes; i++) {
@@ -14114,6 +14118,10 @@ static int write_poly_points_wkb_3(struct writer *wr,
     int count = 0;
     double *pcoords = (double*)coords;
     int nholes = tg_poly_num_holes(poly);
+    if (nholes == 0 && tg_poly_empty(poly)) {
+        write_uint32le(wr, 0);
+        return 0;
+    }
     write_uint32le(wr, 1+nholes);
     const struct tg_ring *exterior = tg_poly_exterior(poly);
     int n = write_ring_points_wkb_3(wr, exterior, pcoords, ncoords);
@@ -14138,6 +14146,10 @@ static int write_poly_points_wkb_4(struct writer *wr,
     int count = 0;
     double *pcoords = (double*)coords;
     int nholes = tg_poly_num_holes(poly);
+    if (nholes == 0 && tg_poly_empty(poly)) {
+        write_uint32le(wr, 0);
+        return 0;
+    }
     write_uint32le(wr, 1+nholes);
     const struct tg_ring *exterior = tg_poly_exterior(poly);
     int n = write_ring_points_wkb_4(wr, exterior, pcoords, ncoords);
-- 
2.43.0


From eff623d84e7ed03cde595c39b8470fc2237c6120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 38/50] fix: the full rectangle of deeply nested collections
 took quadratic time

---
 tg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index aa34242..a55f430 100644
--- a/tg.c
+++ b/tg.c
@@ -15840,7 +15840,10 @@ int tg_geom_fullrect(const struct tg_geom *geom, double min[4], double max[4]) {
             int ngeoms = geom->multi->ngeoms;
             double gmin[4], gmax[4];
             for (int i = 0; i < ngeoms; i++) {
-                if (tg_geom_is_empty(geoms[i])) continue;
+                // Empty children have no rectangle. A collection of those has
+                // no more than two dimensions and needs no test.
+                if (tg_geom_typeof(geoms[i]) != TG_GEOMETRYCOLLECTION &&
+                    tg_geom_is_empty(geoms[i])) continue;
                 int gdims = tg_geom_fullrect(geoms[i], gmin, gmax);
                 if (gdims >= 3) {
                     if (dims == 2) {
-- 
2.43.0


From c095f0785be8a058b84a852ef8e57419cccc2429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 39/50] fix: WKT accepted anything between a NUL after the type
 and the parenthesis

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index a55f430..b26f6d4 100644
--- a/tg.c
+++ b/tg.c
@@ -11951,7 +11951,7 @@ static enum tg_geom_type wkt2type(const char *wkt, long len,
     long j = 0;
     int nws = 0;
     for (; i < len; i++) {
-        if (j == sizeof(name)-1) {
+        if (j == sizeof(name)-1 || wkt[i] == '\0') {
             goto bad_type;
         }
         if (isws(wkt[i])) {
-- 
2.43.0


From e3df41f22879fa23eb7ab647003715986fddf2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 40/50] fix: the center of a rectangle of large coordinates was
 infinite

---
 tg.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tg.c b/tg.c
index b26f6d4..7e038e7 100644
--- a/tg.c
+++ b/tg.c
@@ -1776,10 +1776,14 @@ bool tg_rect_intersects_point(struct tg_rect rect, struct tg_point point) {
 /// Returns the center point of a rectangle
 /// @see RectFuncs
 struct tg_point tg_rect_center(struct tg_rect rect) {
-    return (struct tg_point){ 
+    struct tg_point center = { 
         .x = (rect.max.x + rect.min.x) / 2,
         .y = (rect.max.y + rect.min.y) / 2,
     };
+    // The sums may overflow though the center is finite.
+    if (isinf(center.x)) center.x = rect.max.x / 2 + rect.min.x / 2;
+    if (isinf(center.y)) center.y = rect.max.y / 2 + rect.min.y / 2;
+    return center;
 }
 
 static void rect_inflate(struct tg_rect *rect, struct tg_rect *other) {
@@ -5189,11 +5193,7 @@ struct tg_point tg_geom_point(const struct tg_geom *geom) {
     if (geom->head.base == BASE_GEOM && geom->head.type == TG_POINT) {
         return geom->point;
     }
-    struct tg_rect rect = tg_geom_rect(geom);
-    return (struct tg_point) { 
-        (rect.min.x + rect.max.x) / 2, 
-        (rect.min.y + rect.max.y) / 2,
-    };
+    return tg_rect_center(tg_geom_rect(geom));
 }
 
 static size_t geom_memsize(const struct tg_geom *geom) {
-- 
2.43.0


From 37d2fda784f957ba8c51de05f48d3e5a485953db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 41/50] fix: report a failed allocation for the features of a
 GeoBIN collection

---
 tg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 7e038e7..492b8fa 100644
--- a/tg.c
+++ b/tg.c
@@ -15570,7 +15570,8 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
         }
         struct tg_geom **feats = tg_malloc(nfeats*sizeof(struct tg_geom*));
         if (!feats) {
-            return 0;
+            *g = 0;
+            return PARSE_FAIL;
         }
         memset(feats, 0, nfeats*sizeof(struct tg_geom*));
         struct tg_geom *feat = 0;
-- 
2.43.0


From 26cf7b7ad62564bc72e60ecb2a820217711d7b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 42/50] fix: tg_poly_new returns NULL when a hole is NULL, as
 documented

---
 tg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tg.c b/tg.c
index 492b8fa..704d4db 100644
--- a/tg.c
+++ b/tg.c
@@ -3767,6 +3767,9 @@ struct tg_poly *tg_poly_new(const struct tg_ring *exterior,
         poly->nholes = nholes;
         memset(poly->holes, 0, sizeof(struct tg_ring*)*poly->nholes);
         for (int i = 0; i < poly->nholes; i++) {
+            if (!holes[i]) {
+                goto fail;
+            }
             poly->holes[i] = tg_ring_clone(holes[i]);
         }
     }
-- 
2.43.0


From f5268d8f1b1402109cbbb070cda7cedd5f864036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 43/50] fix: copying an object does not read its reference
 counter, which other threads may be changing

---
 tg.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index 704d4db..b66c6c2 100644
--- a/tg.c
+++ b/tg.c
@@ -590,6 +590,13 @@ struct head {
     enum flags flags:8;
 };
 
+// Copy everything but the reference counter, which must be the first field.
+// Other threads may be changing the counter of the source.
+static void copy_except_rc(void *dst, const void *src, size_t size) {
+    memcpy((char*)dst+sizeof(rc_t), (const char*)src+sizeof(rc_t), 
+        size-sizeof(rc_t));
+}
+
 /// A ring is series of tg_segment which creates a shape that does not
 /// self-intersect and is fully closed, where the start and end points are the
 /// exact same value.
@@ -15104,7 +15111,7 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
     if (!ring2) {
         return NULL;
     }
-    memcpy(ring2, ring, size);
+    copy_except_rc(ring2, ring, size);
     rc_init(&ring2->head.rc);
     rc_retain(&ring2->head.rc);
     ring2->head.noheap = 0;
@@ -15161,7 +15168,7 @@ struct tg_poly *tg_poly_copy(const struct tg_poly *poly) {
         goto fail;
     }
     memset(poly2, 0, sizeof(struct tg_poly));
-    memcpy(&poly2->head, &poly->head, sizeof(struct head));
+    copy_except_rc(&poly2->head, &poly->head, sizeof(struct head));
     rc_init(&poly2->head.rc);
     rc_retain(&poly2->head.rc);
     poly2->head.noheap = 0;
@@ -15195,7 +15202,7 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
         return NULL;
     }
     memset(geom2, 0, sizeof(struct tg_geom));
-    memcpy(&geom2->head, &geom->head, sizeof(struct head));
+    copy_except_rc(&geom2->head, &geom->head, sizeof(struct head));
     rc_init(&geom2->head.rc);
     rc_retain(&geom2->head.rc);
     geom2->head.noheap = 0;
@@ -15294,7 +15301,7 @@ static struct boxed_point *boxed_point_copy(const struct boxed_point *point) {
     if (!point2) {
         return NULL;
     }
-    memcpy(point2, point, sizeof(struct boxed_point));
+    copy_except_rc(point2, point, sizeof(struct boxed_point));
     rc_init(&point2->head.rc);
     rc_retain(&point2->head.rc);
     point2->head.noheap = 0;
-- 
2.43.0


From d4dddac18aa212bb017085a47b31b9b979f3f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 44/50] fix: GeoJSON types with a null character were taken for
 the part before it

---
 tg.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index b66c6c2..d4e7558 100644
--- a/tg.c
+++ b/tg.c
@@ -8613,9 +8613,12 @@ static struct tg_geom *parse_geojson(struct json json, bool req_geom,
         return make_parse_error("'type' is required");
     }
     char type[24];
-    json_string_copy(jtype, type, sizeof(type));
+    size_t tlen = json_string_copy(jtype, type, sizeof(type));
     struct tg_geom *geom = NULL;
-    if (strcmp(type, "Point") == 0) {
+    if (tlen != strlen(type)) {
+        // too long, or has a null character
+        geom = make_parse_error("unknown type '%s'", type);
+    } else if (strcmp(type, "Point") == 0) {
         geom = parse_geojson_point(json, req_geom, ix);
     } else if (strcmp(type, "LineString") == 0) {
         geom = parse_geojson_linestring(json, req_geom, ix);
-- 
2.43.0


From f800d10d31b6f098f087332b4e865fbbc216ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 45/50] fix: escaped spellings of id and properties were
 written twice

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index d4e7558..2317e07 100644
--- a/tg.c
+++ b/tg.c
@@ -11764,13 +11764,13 @@ static void write_base_geom_geojson(const struct tg_geom *geom,
             struct json key = json_first(fjson);
             struct json val = json_next(key);
             while (json_exists(key)) {
-                if (json_raw_compare(key, "\"id\"") != 0) {
+                if (json_string_compare(key, "id") != 0) {
                     write_char(wr, ',');
                     write_stringn(wr, json_raw(key), json_raw_length(key));
                     write_char(wr, ':');
                     write_stringn(wr, json_raw(val), json_raw_length(val));
                     if (!wrote_props && 
-                        json_raw_compare(key, "\"properties\"") == 0)
+                        json_string_compare(key, "properties") == 0)
                     {
                         wrote_props = true;
                     }
-- 
2.43.0


From a732fa19f7058f875f6a76a0707c3a1efde3fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 46/50] fix: index rectangles did not hold coordinates beyond
 the range of floats

---
 tg.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index 2317e07..bb27a11 100644
--- a/tg.c
+++ b/tg.c
@@ -1536,13 +1536,25 @@ static double fup(double d) {
     return fnext0(d, 1);
 }
 
+// ixdown/ixup returns a float that is not above or below d, which the products
+// above do not ensure for subnormal floats and beyond the range of floats.
+static float ixdown(double d) {
+    float f = fdown(d);
+    return f > d ? nextafterf(f, -INFINITY) : f;
+}
+
+static float ixup(double d) {
+    float f = fup(d);
+    return f < d ? nextafterf(f, INFINITY) : f;
+}
+
 static void tg_rect_to_ixrect(struct tg_rect *rect, 
     struct ixrect *ixrect)
 {
-    ixrect->min.x = fdown(rect->min.x);
-    ixrect->min.y = fdown(rect->min.y);
-    ixrect->max.x = fup(rect->max.x);
-    ixrect->max.y = fup(rect->max.y);
+    ixrect->min.x = ixdown(rect->min.x);
+    ixrect->min.y = ixdown(rect->min.y);
+    ixrect->max.x = ixup(rect->max.x);
+    ixrect->max.y = ixup(rect->max.y);
 }
 
 #else
-- 
2.43.0


From b95df80fd7f55e9c300b678e9aa080d0369c5f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 47/50] fix: points next to steep or nearly level segments were
 on the wrong side in tg_raycast

---
 tg.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tg.c b/tg.c
index bb27a11..779a2e8 100644
--- a/tg.c
+++ b/tg.c
@@ -1233,12 +1233,13 @@ static enum tg_raycast_result raycast(struct tg_segment seg,
         }
         return TG_ON;
     }
-    if (p.y == a.y || p.y == b.y) {
-        p.y = nexttoward(p.y, INFINITY);
-    }
-    if (p.y < a.y || p.y > b.y) {
+    // A point at the height of an endpoint is taken to be just above it.
+    if (p.y < a.y || p.y >= b.y) {
         return TG_OUT;
     }
+    if (p.y == a.y) {
+        return p.x < a.x ? TG_IN : TG_OUT;
+    }
     if (a.x > b.x) {
         if (p.x >= a.x) {
             return TG_OUT;
@@ -1254,7 +1255,7 @@ static enum tg_raycast_result raycast(struct tg_segment seg,
             return TG_IN;
         }
     }
-    if ((p.y-a.y)/(p.x-a.x) >= (b.y-a.y)/(b.x-a.x)) {
+    if ((p.y-a.y)*(b.x-a.x) >= (b.y-a.y)*(p.x-a.x)) {
         return TG_IN;
     }
     return TG_OUT;
-- 
2.43.0


From 3a53d7d77a5a10f53f8124cd701c0ad54d999b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 48/50] fix: area and winding of rings far from zero

---
 tg.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 779a2e8..50162a4 100644
--- a/tg.c
+++ b/tg.c
@@ -1962,6 +1962,10 @@ static struct tg_rect process_points(const struct tg_point *points,
     double cwc = 0;
     int ixspread = index ? index->spread : 0;
 
+    // The area is summed up from positions that are relative to the first
+    // point, as otherwise it's lost for small rings that are far from zero.
+    struct tg_point origin = points[0];
+
     // Fill the initial rectangle with the first point.
     rect.min = points[0];
     rect.max = points[0];
@@ -2023,7 +2027,8 @@ static struct tg_rect process_points(const struct tg_point *points,
     }
 
     #define step_calc_clockwise() { \
-        cwc += (b.x - a.x) * (b.y + a.y); \
+        cwc += (b.x - origin.x) * (a.y - origin.y) - \
+               (a.x - origin.x) * (b.y - origin.y); \
     }
 
     #define step_calc_concave(label) { \
-- 
2.43.0


From 022135b15f0d7104ffc48f87244406d44a42b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:53 +0000
Subject: [PATCH 49/50] fix: tg_segment_intersects_segment lost digits of large
 coordinates

---
 tg.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tg.c b/tg.c
index 50162a4..07ee086 100644
--- a/tg.c
+++ b/tg.c
@@ -1419,11 +1419,15 @@ bool tg_segment_intersects_segment(struct tg_segment seg_a,
         // Segments are parallel.
         return false; 
     }
-    double cmpxs = cmpx*sy - cmpy*sx;
-    double rxsr = 1 / rxs;
-    double t = cmpxs * rxsr;
-    double u = cmpxr * rxsr;
-    if (!((t >= 0) && (t <= 1) && (u >= 0) && (u <= 1))) {
+    // The segments intersect when neither of them is entirely on one side of
+    // the line through the other.
+    double dxr = (d.x-a.x)*ry - (d.y-a.y)*rx;
+    if ((cmpxr > 0 && dxr > 0) || (cmpxr < 0 && dxr < 0)) {
+        return false;
+    }
+    double axs = cmpx*sy - cmpy*sx;
+    double bxs = (c.x-b.x)*sy - (c.y-b.y)*sx;
+    if ((axs > 0 && bxs > 0) || (axs < 0 && bxs < 0)) {
         return false;
     }
     return true;
-- 
2.43.0


From 9700379ed1828dce03b4564962751ba638d04b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 50/50] fix: the size of long lines and rings overflowed in the
 WKB writers

The number of points was multiplied by 16, 24 or 32 as an int: from
2^31 bytes on (134,217,728 points) tg_geom_wkb returned a length near
2^64, and the copy of the points was asked for that many bytes.
---
 tg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index 07ee086..1c81097 100644
--- a/tg.c
+++ b/tg.c
@@ -14075,7 +14075,7 @@ static void write_posn_wkb_4(struct writer *wr, struct tg_point posn,
 static int write_ring_points_wkb(struct writer *wr, const struct tg_ring *ring)
 {
     write_uint32le(wr, ring->npoints);
-    size_t needed = ring->npoints*16;
+    size_t needed = (size_t)ring->npoints*16;
 #if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
     if (wr->count+needed <= wr->n) {
         memcpy(wr->dst+wr->count, ring->points, needed);
@@ -14097,7 +14097,7 @@ static int write_ring_points_wkb_3(struct writer *wr,
     const struct tg_ring *ring, const double *coords, int ncoords)
 {
     write_uint32le(wr, ring->npoints);
-    size_t needed = ring->npoints*24;
+    size_t needed = (size_t)ring->npoints*24;
     if (wr->count >= wr->n) {
         wr->count += needed;
     } else {
@@ -14115,7 +14115,7 @@ static int write_ring_points_wkb_4(struct writer *wr,
     const struct tg_ring *ring, const double *coords, int ncoords)
 {
     write_uint32le(wr, ring->npoints);
-    size_t needed = ring->npoints*32;
+    size_t needed = (size_t)ring->npoints*32;
     if (wr->count >= wr->n) {
         wr->count += needed;
     } else {
-- 
2.43.0

