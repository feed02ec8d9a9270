// Threads of the library under a chosen schedule.
//
// tg.c is compiled with -fsanitize=thread, and the functions which that
// instrumentation calls are here: they record each access of the library to
// shared memory, and before each atomic access to (and the release of) a shared
// block they hand over to the next thread of the schedule.  The threads are
// contexts of one system thread, so that a run is repeatable.
//
// line: KIND NTHREADS PROGRAM... SCHEDULE   (a program: letters, see run_op; a
// schedule: digits, or -)
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <ucontext.h>
#include "tg.h"

#define NB 4096
#define NT 5
static struct block { uint8_t *p; size_t n; bool shared, dead; } blocks[NB];
static int nblocks;
static int cur;          // running thread, 0: none
static bool rec;
extern char __data_start, _end;

// ------------------------------------------------------------------ recording
static struct { long b; long lo, hi; int w; } *pend[NT];
static int npend[NT], cpend[NT];
static int nout;
static void out(const char *k, int t, long b, long lo, long hi, int mo) {
    printf("%s[\"%s\",%d,%ld,%ld,%ld,%d]", nout++ ? "," : "", k, t, b, lo, hi, mo);
    if (nout > 200000) { fflush(stdout); _Exit(3); }
}
static struct block *find(const void *a) {
    for (int i = nblocks-1; i >= 0; i--) if ((uint8_t*)a >= blocks[i].p && (uint8_t*)a < blocks[i].p + blocks[i].n + 1) return &blocks[i];
    return NULL;
}
static int cmp(const void *a, const void *b) {
    const long *x = a, *y = b;      // b, lo, hi, then w
    int wx = *(int*)(x+3), wy = *(int*)(y+3);
    if (x[0] != y[0]) return x[0] < y[0] ? -1 : 1;
    if (wx != wy) return wx - wy;
    return x[1] < y[1] ? -1 : x[1] > y[1];
}
static void flush(int t) {
    if (!npend[t]) return;
    qsort(pend[t], npend[t], sizeof *pend[t], cmp);
    for (int i = 0; i < npend[t];) {
        long hi = pend[t][i].hi; int j = i+1;
        while (j < npend[t] && pend[t][j].b == pend[t][i].b && pend[t][j].w == pend[t][i].w && pend[t][j].lo <= hi+1) { if (pend[t][j].hi > hi) hi = pend[t][j].hi; j++; }
        out(pend[t][i].w ? "w" : "r", t, pend[t][i].b, pend[t][i].lo, hi, 0);
        i = j;
    }
    npend[t] = 0;
}
static void access_(const void *a, size_t n, int w) {
    if (!rec || !cur || !n) return;
    long b, lo;
    struct block *x = find(a);
    if (x) { if (!x->shared && !x->dead) return; b = x - blocks + 1; lo = (uint8_t*)a - x->p; }
    else if ((char*)a >= &__data_start && (char*)a < &_end) { b = 0; lo = (char*)a - &__data_start; }
    else return;
    int t = cur;
    if (npend[t] == cpend[t]) { cpend[t] = cpend[t]*2 + 64; pend[t] = realloc(pend[t], cpend[t] * sizeof *pend[t]); }
    pend[t][npend[t]].b = b; pend[t][npend[t]].lo = lo; pend[t][npend[t]].hi = lo + (long)n - 1; pend[t][npend[t]++].w = w;
}
// ----------------------------------------------------------------- scheduling
static ucontext_t ctx[NT], home;
static bool done[NT];
static void hand_over(void) { if (!rec || !cur) return; int t = cur; cur = 0; swapcontext(&ctx[t], &home); cur = t; }
static void sync_(const void *a, const char *k, int mo, size_t n) {
    if (!rec || !cur) return;
    struct block *x = find(a);
    bool glob = !x && (char*)a >= &__data_start && (char*)a < &_end;
    if (!x && !glob) return;
    if (x && !x->shared && !x->dead) return;
    flush(cur); hand_over();
    long lo = x ? (uint8_t*)a - x->p : (char*)a - &__data_start;
    out(k, cur, x ? x - blocks + 1 : 0, lo, lo + (long)n - 1, mo);
}
// ------------------------------------------------------- memory of the library
static void *t_malloc(size_t n) {
    if (nblocks == NB) return NULL;
    uint8_t *p = calloc(1, n + 32);
    blocks[nblocks++] = (struct block){p, n, false, false};
    if (rec && cur) { flush(cur); out("new", cur, nblocks, 0, 0, 0); }
    return p;
}
static void t_free(void *p) {
    if (!p) return;
    struct block *x = find(p);
    if (!x || x->p != p) { printf("\n"); fflush(stdout); abort(); }
    if (rec && cur) { flush(cur); if (x->shared && !x->dead) hand_over(); out("free", cur, x - blocks + 1, 0, 0, 0); }
    x->dead = true;
}
static void *t_realloc(void *p, size_t n) {
    if (!p) return t_malloc(n);
    struct block *x = find(p);
    void *q = t_malloc(n);
    if (q) { memcpy(q, p, x->n < n ? x->n : n); t_free(p); }
    return q;
}
// ------------------------------------------- what the instrumentation calls
#define ACC(n) \
    void __tsan_read##n(void *a) { access_(a, n, 0); } void __tsan_write##n(void *a) { access_(a, n, 1); } \
    void __tsan_unaligned_read##n(void *a) { access_(a, n, 0); } void __tsan_unaligned_write##n(void *a) { access_(a, n, 1); } \
    void __tsan_read##n##_pc(void *a, void *pc) { (void)pc; access_(a, n, 0); } void __tsan_write##n##_pc(void *a, void *pc) { (void)pc; access_(a, n, 1); } \
    void __tsan_read_write##n(void *a) { access_(a, n, 0); access_(a, n, 1); } void __tsan_unaligned_read_write##n(void *a) { access_(a, n, 0); access_(a, n, 1); } \
    void __tsan_volatile_read##n(void *a) { access_(a, n, 0); } void __tsan_volatile_write##n(void *a) { access_(a, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *a) { access_(a, n, 0); } void __tsan_unaligned_volatile_write##n(void *a) { access_(a, n, 1); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *a, size_t n) { access_(a, n, 0); }
void __tsan_write_range(void *a, size_t n) { access_(a, n, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_(s, n, 0); access_(d, n, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_(s, n, 0); access_(d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_(d, n, 1); return memset(d, c, n); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define ATOMIC(n, T) \
    T __tsan_atomic##n##_load(const volatile T *a, int mo) { sync_((void*)a, "ld", mo, n/8); return *a; } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int mo) { sync_((void*)a, "st", mo, n/8); *a = v; } \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int mo) { sync_((void*)a, "rmw", mo, n/8); T o = *a; *a = v; return o; } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int mo) { sync_((void*)a, "rmw", mo, n/8); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int mo) { sync_((void*)a, "rmw", mo, n/8); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int mo) { sync_((void*)a, "rmw", mo, n/8); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int mo) { sync_((void*)a, "rmw", mo, n/8); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int mo) { sync_((void*)a, "rmw", mo, n/8); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int mo) { sync_((void*)a, "rmw", mo, n/8); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
        if (rec && cur) { flush(cur); struct block *y = find((void*)a); if (y && (y->shared || y->dead)) hand_over(); } \
        bool eq = *a == *c; struct block *x = find((void*)a); \
        if (rec && cur && x && (x->shared || x->dead)) { long lo = (uint8_t*)a - x->p; out(eq ? "rmw" : "ld", cur, x - blocks + 1, lo, lo + n/8 - 1, eq ? mo : fmo); } \
        if (eq) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, mo, fmo); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { __tsan_atomic##n##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (rec && cur) { flush(cur); out("fence", cur, 0, 0, 0, mo); } }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// -------------------------------------------------------------------- objects
enum kind { RING, LINE, POLY, GEOM };
struct obj { enum kind k; void *p; };
static struct obj clone(struct obj o) {
    switch (o.k) { case RING: o.p = tg_ring_clone(o.p); break; case LINE: o.p = tg_line_clone(o.p); break; case POLY: o.p = tg_poly_clone(o.p); break; default: o.p = tg_geom_clone(o.p); } return o;
}
static struct obj copy(struct obj o) {
    switch (o.k) { case RING: o.p = tg_ring_copy(o.p); break; case LINE: o.p = tg_line_copy(o.p); break; case POLY: o.p = tg_poly_copy(o.p); break; default: o.p = tg_geom_copy(o.p); } return o;
}
static void let_go(struct obj o) {
    switch (o.k) { case RING: tg_ring_free(o.p); break; case LINE: tg_line_free(o.p); break; case POLY: tg_poly_free(o.p); break; default: tg_geom_free(o.p); }
}
static const struct tg_geom *G(struct obj o) { return o.p; }  // all of them can be cast to a geometry
static struct obj member(struct obj o) {
    const struct tg_geom *g = o.p; const void *p; struct obj r = {RING, NULL};
    if (o.k == POLY) { r.p = tg_ring_clone(tg_poly_num_holes(o.p) ? tg_poly_hole_at(o.p, 0) : tg_poly_exterior(o.p)); return r; }
    if (o.k != GEOM) return clone(o);
    if ((p = tg_geom_line(g))) return (struct obj){LINE, tg_line_clone(p)};
    if ((p = tg_geom_poly(g))) return (struct obj){POLY, tg_poly_clone(p)};
    if ((p = tg_geom_line_at(g, 0))) return (struct obj){LINE, tg_line_clone(p)};
    if ((p = tg_geom_poly_at(g, 0))) return (struct obj){POLY, tg_poly_clone(p)};
    if ((p = tg_geom_geometry_at(g, 0))) return (struct obj){GEOM, tg_geom_clone(p)};
    return clone(o);
}
static struct obj around(struct obj o) { // an object that holds o
    const struct tg_geom *two[2] = {o.p, o.p};
    if (o.k == RING) { const struct tg_ring *h[1] = {o.p}; return (struct obj){POLY, tg_poly_new(o.p, h, 1)}; }
    if (o.k == LINE) { const struct tg_line *l[2] = {o.p, o.p}; return (struct obj){GEOM, tg_geom_new_multilinestring(l, 2)}; }
    if (o.k == POLY) { const struct tg_poly *l[1] = {o.p}; return (struct obj){GEOM, tg_geom_new_multipolygon(l, 1)}; }
    return (struct obj){GEOM, tg_geom_new_geometrycollection(two, 2)};
}
static struct tg_ring *ring(int n, int at, enum tg_index ix) {
    struct tg_point p[200];
    for (int i = 0; i < n; i++) p[i] = (struct tg_point){at + (i < n/2 ? i : n-i), i < n/2 ? (i & 1) : 9 + (i & 1)};
    p[n] = p[0];
    return tg_ring_new_ix(p, n+1, ix);
}
static struct tg_line *aline(int n) {
    struct tg_point p[200];
    for (int i = 0; i < n; i++) p[i] = (struct tg_point){i, i & 1};
    return tg_line_new_ix(p, n, TG_NATURAL);
}
static struct tg_poly *apoly(int holes) {
    struct tg_ring *e = ring(40, 0, TG_YSTRIPES), *h = ring(6, 2, TG_NATURAL);
    const struct tg_ring *hs[2] = {h, h};
    struct tg_poly *p = tg_poly_new(e, hs, holes);
    tg_ring_free(e); tg_ring_free(h);
    return p;
}
static struct obj parsed(const char *s) { return (struct obj){GEOM, tg_parse(s, strlen(s))}; }
static struct obj make(const char *k) {
    struct obj o = {GEOM, NULL};
    if (!strcmp(k, "ring")) { o.k = RING; o.p = ring(40, 0, TG_YSTRIPES); }
    else if (!strcmp(k, "line")) { o.k = LINE; o.p = aline(40); }
    else if (!strcmp(k, "poly0")) { o.k = POLY; o.p = apoly(0); }
    else if (!strcmp(k, "poly1")) { o.k = POLY; o.p = apoly(1); }
    else if (!strcmp(k, "poly2")) { o.k = POLY; o.p = apoly(2); }
    else if (!strcmp(k, "pt")) o.p = tg_geom_new_point((struct tg_point){1, 2});
    else if (!strcmp(k, "ptz")) o.p = tg_geom_new_point_z((struct tg_point){1, 2}, 3);
    else if (!strcmp(k, "empty")) o.p = tg_geom_new_polygon_empty();
    else if (!strcmp(k, "err")) o.p = tg_geom_new_error("no");
    else if (!strcmp(k, "line_z")) { struct tg_line *l = aline(3); double z[3] = {1, 2, 3}; o.p = tg_geom_new_linestring_z(l, z, 3); tg_line_free(l); }
    else if (!strcmp(k, "poly_z")) { struct tg_poly *p = apoly(0); double z[41] = {1}; o.p = tg_geom_new_polygon_z(p, z, 41); tg_poly_free(p); }
    else if (!strcmp(k, "gpoly")) { struct tg_poly *p = apoly(1); o.p = tg_geom_new_polygon(p); tg_poly_free(p); }
    else if (!strcmp(k, "mp")) { struct tg_point p[80]; for (int i = 0; i < 80; i++) p[i] = (struct tg_point){i, i%7}; o.p = tg_geom_new_multipoint(p, 80); }
    else if (!strcmp(k, "ml")) { struct tg_line *l = aline(4); const struct tg_line *ls[2] = {l, l}; o.p = tg_geom_new_multilinestring(ls, 2); tg_line_free(l); }
    else if (!strcmp(k, "mpoly")) { struct tg_poly *p = apoly(1); const struct tg_poly *ps[1] = {p}; o.p = tg_geom_new_multipolygon(ps, 1); tg_poly_free(p); }
    else if (!strcmp(k, "gc")) { struct tg_geom *g = tg_geom_new_point((struct tg_point){1, 2}); const struct tg_geom *gs[1] = {g}; o.p = tg_geom_new_geometrycollection(gs, 1); tg_geom_free(g); }
    else if (!strcmp(k, "gcgc")) o = parsed("GEOMETRYCOLLECTION(GEOMETRYCOLLECTION(POINT(1 2),LINESTRING Z(1 2 3,4 5 6)),POLYGON((0 0,9 0,9 9,0 0)))");
    else if (!strcmp(k, "feat")) o = parsed("{\"type\":\"Feature\",\"id\":7,\"geometry\":{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]],\"a\":1},\"properties\":{\"b\":[2]}}");
    else if (!strcmp(k, "fc")) o = parsed("{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2,3]},\"properties\":{\"b\":[2]}}],\"x\":0}");
    else { fprintf(stderr, "conc: unknown kind %s\n", k); exit(90); }
    return o;
}
static bool seen(const struct tg_geom *g, int i, void *u) { (void)g; (void)i; ++*(int*)u; return true; }
static struct tg_geom *other;   // of main
static volatile double sink;
// all that can be asked of the parts
static double near1(struct tg_segment s, int *more, void *u) { (void)u; (void)more; return (s.a.x - 2) * (s.a.x - 2); }
static double near2(struct tg_rect r, int *more, void *u) { (void)u; (void)more; return r.min.x > 2 ? (r.min.x - 2) * (r.min.x - 2) : 0; }
static bool near3(struct tg_segment s, double d, int i, void *u) { (void)s; (void)d; (void)i; return ++*(int*)u < 5; }
static bool cross(struct tg_segment s, int i, struct tg_segment t, int j, void *u) { (void)s; (void)i; (void)t; (void)j; ++*(int*)u; return true; }
static void ask_ring(const struct tg_ring *r, int what) {
    if (!r) return;
    int n = 0;
    const struct tg_ring *o = tg_poly_exterior(tg_geom_poly(other));
    if (what == 6) { sink = tg_ring_area(r) + tg_ring_perimeter(r) + tg_ring_convex(r) + tg_ring_clockwise(r) + tg_ring_memsize(r) + tg_ring_rect(r).min.x + tg_ring_num_points(r) + tg_ring_num_segments(r); if (tg_ring_num_points(r)) sink = tg_ring_point_at(r, 1).x + tg_ring_points(r)[0].x + tg_ring_segment_at(r, 0).a.x; }
    else if (what == 7) { sink = tg_ring_index_spread(r); for (int i = 0; i < tg_ring_index_num_levels(r); i++) for (int j = 0; j < tg_ring_index_level_num_rects(r, i) && j < 3; j++) sink = tg_ring_index_level_rect(r, i, j).min.x; }
    else { tg_ring_nearest_segment(r, near2, near1, near3, &n); tg_ring_ring_search(r, o, cross, &n); tg_ring_ring_search(o, r, cross, &n); }
}
static void ask_line(const struct tg_line *r, int what) {
    if (!r) return;
    int n = 0;
    const struct tg_ring *o = tg_poly_exterior(tg_geom_poly(other));
    if (what == 6) { sink = tg_line_length(r) + tg_line_clockwise(r) + tg_line_memsize(r) + tg_line_rect(r).min.x + tg_line_num_points(r) + tg_line_num_segments(r); if (tg_line_num_points(r)) sink = tg_line_point_at(r, 0).x + tg_line_points(r)[0].x + tg_line_segment_at(r, 0).a.x; }
    else if (what == 7) { sink = tg_line_index_spread(r); for (int i = 0; i < tg_line_index_num_levels(r); i++) for (int j = 0; j < tg_line_index_level_num_rects(r, i) && j < 3; j++) sink = tg_line_index_level_rect(r, i, j).min.x; }
    else { tg_line_nearest_segment(r, near2, near1, near3, &n); tg_ring_line_search(o, r, cross, &n); tg_line_line_search(r, r, cross, &n); }
}
static void ask_poly(const struct tg_poly *p, int what) {
    if (!p) return;
    sink = tg_poly_clockwise(p) + tg_poly_memsize(p) + tg_poly_rect(p).max.y + tg_poly_num_holes(p);
    ask_ring(tg_poly_exterior(p), what);
    for (int i = 0; i < tg_poly_num_holes(p); i++) ask_ring(tg_poly_hole_at(p, i), what);
}
static void each(const struct tg_geom *g, int what, int deep) {
    if (!g || !deep) return;
    sink = tg_geom_point(g).x + tg_geom_z(g) + tg_geom_m(g) + tg_geom_has_z(g) + tg_geom_has_m(g) + tg_geom_is_feature(g) + tg_geom_is_featurecollection(g) + (tg_geom_extra_coords(g) != 0);
    ask_line(tg_geom_line(g), what); ask_poly(tg_geom_poly(g), what);
    for (int i = 0; i < tg_geom_num_points(g) && i < 3; i++) sink = tg_geom_point_at(g, i).x;
    for (int i = 0; i < tg_geom_num_lines(g); i++) ask_line(tg_geom_line_at(g, i), what);
    for (int i = 0; i < tg_geom_num_polys(g); i++) ask_poly(tg_geom_poly_at(g, i), what);
    for (int i = 0; i < tg_geom_num_geometries(g); i++) each(tg_geom_geometry_at(g, i), what, deep-1);
}
static void read_all(struct obj o, int what) {
    const struct tg_geom *g = G(o); char buf[4000]; int n = 0; double mn[4], mx[4];
    switch (what) {
    case 0: sink = tg_geom_typeof(g) + tg_geom_dims(g) + tg_geom_is_empty(g) + tg_geom_memsize(g) + tg_geom_rect(g).max.x + tg_geom_fullrect(g, mn, mx) + (tg_geom_extra_json(g) != 0) + tg_geom_num_extra_coords(g) + (tg_geom_error(g) != 0); break;
    case 1: sink = tg_geom_geojson(g, buf, sizeof buf) + tg_geom_wkt(g, buf, sizeof buf); break;
    case 2: sink = tg_geom_wkb(g, (uint8_t*)buf, sizeof buf) + tg_geom_geobin(g, (uint8_t*)buf, sizeof buf) + tg_geom_hex(g, buf, sizeof buf); break;
    case 3: sink = tg_geom_intersects(g, other) + tg_geom_intersects(other, g) + tg_geom_covers(other, g) + tg_geom_touches(g, other); break;
    case 4: tg_geom_search(g, (struct tg_rect){{0, 0}, {5, 5}}, seen, &n); sink = n + tg_geom_intersects_xy(g, 3, 3) + tg_geom_intersects_rect(g, (struct tg_rect){{1, 1}, {2, 2}}); break;
    case 6: case 7: case 8: each(g, what, 3); break;
    case 9: { // parsing and building, next to all this
        static const char *t[] = {"POLYGON((0 0,9 0,9 9,0 0),(5 1,6 1,6 2,5 1))", "{\"type\":\"MultiPoint\",\"coordinates\":[[1,2,3],[4,5,1.5e-7]],\"a\":0.1}", "010100000000000000000000000000000000000040", "POINT(1", "{\"type\":\"Feature\",\"id\":1,\"geometry\":null,\"properties\":{}}"};
        for (int i = 0; i < 5; i++) { struct tg_geom *p = tg_parse_ix(t[i], strlen(t[i]), i % 3); n += tg_geom_wkt(p, buf, sizeof buf); n += tg_geom_intersects(p, g); tg_geom_free(p); }
        n = tg_geom_geobin(other, (uint8_t*)buf, sizeof buf);
        struct tg_geom *p = tg_parse(buf, n); sink = tg_geobin_fullrect((uint8_t*)buf, n, mn, mx) + tg_geobin_rect((uint8_t*)buf, n).max.x + tg_geobin_point((uint8_t*)buf, n).x; tg_geom_free(p);
        p = tg_geom_new_error("no"); sink = tg_geom_error(p) != 0; tg_geom_free(p);
    } break;
    default: sink = tg_geom_equals(g, g) + tg_geom_contains(g, other) + tg_geom_within(g, other) + tg_geom_coveredby(g, other) + tg_geom_disjoint(g, other); break;
    }
}
// --------------------------------------------------------------------- threads
static struct obj hs[NT][64], ms[NT][64];
static int nh[NT], nm[NT];
static char *prog[NT];
static void run_op(int t, char c) {
    struct obj top = nh[t] ? hs[t][nh[t]-1] : nm[t] ? ms[t][nm[t]-1] : (struct obj){0};
    if (!top.p || nh[t] > 60 || nm[t] > 60) return;
    if (c == 'c') { if (nh[t]) { struct obj o = clone(top); hs[t][nh[t]++] = o; } }
    else if (c == 'm') { if (nh[t]) { struct obj o = member(top); ms[t][nm[t]++] = o; } }
    else if (c == 'f') { if (nh[t]) let_go(hs[t][--nh[t]]); }
    else if (c == 'g') { if (nm[t]) let_go(ms[t][--nm[t]]); }
    else if (c == 'k') let_go(copy(top));
    else if (c == 'x') let_go(around(top));
    else if (c >= '0' && c <= '9') read_all(top, c-'0');
}
static void body(int t) {
    cur = t;
    for (char *p = prog[t]; *p; p++) run_op(t, *p);
    while (nm[t]) let_go(ms[t][--nm[t]]);
    while (nh[t]) let_go(hs[t][--nh[t]]);
    flush(t);
    done[t] = true;
    cur = 0;
    swapcontext(&ctx[t], &home);
}
int main(void) {
    static char *line; static size_t cap; static char *stacks[NT];
    tg_env_set_allocator(t_malloc, t_realloc, t_free);
    for (int t = 1; t < NT; t++) stacks[t] = malloc(1 << 20);
    while (getline(&line, &cap, stdin) > 0) {
        char *save, *a = line; if (*a == '!') { fflush(stdout); a++; }
        char *kind = strtok_r(a, " \n", &save);
        if (!kind) continue;
        int n = atoi(strtok_r(NULL, " \n", &save));
        for (int t = 1; t <= n; t++) prog[t] = strtok_r(NULL, " \n", &save);
        char *sched = strtok_r(NULL, " \n", &save);
        rec = false; cur = 0; nout = 0;
        struct obj o = make(kind), oth = make("gpoly");
        other = oth.p;
        for (int t = 1; t <= n; t++) { hs[t][0] = clone(o); nh[t] = 1; nm[t] = 0; done[t] = false; npend[t] = 0; }
        let_go(o);
        printf("{\"n\":%d,\"live\":[", n);
        // blocks of the other geometry are shared too, but stay
        for (int i = 0; i < nblocks; i++) blocks[i].shared = true;
        bool first = true;
        for (int i = 0; i < nblocks; i++) if (!blocks[i].dead) { printf("%s%d", first ? "" : ",", i+1); first = false; }
        printf("],\"s\":[");
        rec = true;
        for (int t = 1; t <= n; t++) {
            getcontext(&ctx[t]);
            ctx[t].uc_stack.ss_sp = stacks[t]; ctx[t].uc_stack.ss_size = 1 << 20; ctx[t].uc_link = &home;
            makecontext(&ctx[t], (void(*)(void))body, 1, t);
            swapcontext(&home, &ctx[t]);
            cur = 0;
        }
        for (char *p = sched; ; ) {
            int t = 0;
            if (*p >= '1' && *p <= '0' + n) t = *p++ - '0';
            else if (*p) { p++; continue; }
            else for (int u = 1; u <= n && !t; u++) if (!done[u]) t = u;
            if (!t) break;
            if (done[t]) continue;
            swapcontext(&home, &ctx[t]);
            cur = 0;
        }
        rec = false;
        printf("],\"keep\":["); first = true;
        { // what main keeps: the other geometry
            bool was[NB]; for (int i = 0; i < nblocks; i++) was[i] = blocks[i].dead;
            tg_geom_free(other);
            for (int i = 0; i < nblocks; i++) if (!was[i] && blocks[i].dead) { printf("%s%d", first ? "" : ",", i+1); first = false; }
        }
        printf("]}\n");
        for (int i = 0; i < nblocks; i++) free(blocks[i].p);
        nblocks = 0;
    }
    return 0;
}
