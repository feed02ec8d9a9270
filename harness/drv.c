// drv.c - line-command interpreter over the public API of tg.
//
// It reads one command per line from stdin and prints exactly one JSON line per
// command. It takes no decisions about what is right: it only drives the
// library and records what it did; the TLA+ specifications judge the record.
//
// Coordinates in commands are integers; the driver maps them into doubles with
// an exact affine transform (xf), and maps coordinates it reports back through
// the inverse; a value that is not an integer in model units is reported as
// NOTINT. Commands that work on raw doubles take/print 64-bit patterns.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <math.h>
#include <limits.h>
#include <sys/mman.h>
#include <unistd.h>
#ifndef TG_STATIC
#include "tg.h"
#endif

#define NOTINT 2000000000
#define NSLOT 8192

enum kind { K_NONE, K_GEOM, K_RING, K_LINE, K_POLY };
static struct slot { enum kind k; void *p; } slots[NSLOT];

// ---------------------------------------------------------------- allocator
static size_t live_blocks, live_bytes, total_allocs, fail_at, fail_run, failed;
static bool badfree;
struct ahdr { size_t size; uint64_t magic; };
#define MAGIC 0x5AFE5AFE12345678ull
static bool inject(void) {
    total_allocs++;
    if (fail_at && total_allocs >= fail_at &&
        total_allocs < fail_at + (fail_run ? fail_run : 1)) {
        failed++;
        return true;
    }
    return false;
}
static void *t_malloc(size_t n) {
    if (inject()) return NULL;
    if (n > ((size_t)1 << 32)) { failed++; return NULL; }
    struct ahdr *h = malloc(sizeof(struct ahdr)+n);
    if (!h) return NULL;
    h->size = n; h->magic = MAGIC;
    memset(h+1, 0xA5, n);
    live_blocks++; live_bytes += n;
    return h+1;
}
static void t_free(void *p) {
    if (!p) return;
    struct ahdr *h = (struct ahdr*)p-1;
    if (h->magic != MAGIC) { badfree = true; return; }
    h->magic = 0;
    live_blocks--; live_bytes -= h->size;
    memset(p, 0xDD, h->size);
    free(h);
}
static void *t_realloc(void *p, size_t n) {
    if (!p) return t_malloc(n);
    if (inject()) return NULL;
    if (n > ((size_t)1 << 32)) { failed++; return NULL; }
    struct ahdr *h = (struct ahdr*)p-1;
    if (h->magic != MAGIC) { badfree = true; return NULL; }
    size_t old = h->size;
    struct ahdr *h2 = malloc(sizeof(struct ahdr)+n);
    if (!h2) return NULL;
    h2->size = n; h2->magic = MAGIC;
    memset(h2+1, 0xA5, n);
    memcpy(h2+1, p, old < n ? old : n);
    h->magic = 0;
    memset(p, 0xDD, old);
    free(h);
    live_bytes += n; live_bytes -= old;
    return h2+1;
}

// ---------------------------------------------------------------- tokens
static char *line; static size_t linecap;
static char *cur;
static void die(const char *m) { fprintf(stderr, "driver: %s\n", m); fflush(stdout); exit(90); }
static char *tok(void) {
    while (*cur == ' ' || *cur == '\n') cur++;
    if (!*cur) die("missing token");
    char *s = cur;
    while (*cur && *cur != ' ' && *cur != '\n') cur++;
    if (*cur) *cur++ = 0;
    return s;
}
static bool more(void) { while (*cur == ' ' || *cur == '\n') cur++; return *cur != 0; }
static long I(void) { char *t = tok(), *e; long v = strtol(t, &e, 10); if (*e || e == t) die("integer"); return v; }
static double xs = 1, xtx, xty;
static double R(void) { char *t = tok(), *e; double v = strtod(t, &e); if (*e || e == t) die("number"); return v; }
static double X(void) { return (R() + xtx) * xs; }
static double Y(void) { return (R() + xty) * xs; }
static double D(void) {  // raw double: 16 hex digits of the bits, after an h or not
    char *t = tok(), *e; if (*t == 'h') t++;
    uint64_t u = strtoull(t, &e, 16); if (*e || e != t+16) die("bits");
    double d; memcpy(&d, &u, 8); return d;
}
static double NUM(void) { // model number or raw bits (h...)
    char *t = tok(), *e;
    if (*t == 'h') { uint64_t u = strtoull(t+1, &e, 16); if (*e || e != t+17) die("bits"); double d; memcpy(&d, &u, 8); return d; }
    double v = strtod(t, &e); if (*e || e == t) die("number");
    return v;
}
static struct slot *S(void) { long i = I(); if (i < 0 || i >= NSLOT) die("slot"); return &slots[i]; }
static enum tg_index IX(void);
#ifdef TG_STATIC
#define HAVE_SPREAD 1
#else
enum tg_index tg_index_with_spread(enum tg_index ix, int spread) __attribute__((weak));
#define HAVE_SPREAD (tg_index_with_spread != NULL)
#endif
static enum tg_index IX(void) {
    char *t = tok();
    enum tg_index ix = TG_DEFAULT;
    char *c = strchr(t, ':');
    int spread = 0;
    if (c) { *c = 0; spread = atoi(c+1); }
    if (!strcmp(t, "none")) ix = TG_NONE;
    else if (!strcmp(t, "natural")) ix = TG_NATURAL;
    else if (!strcmp(t, "ystripes")) ix = TG_YSTRIPES;
    else if (!strcmp(t, "default")) ix = TG_DEFAULT;
    else die("ix");
    if (spread && HAVE_SPREAD) ix = tg_index_with_spread(ix, spread);
    return ix;
}
static int hexdig(char c) { return c <= '9' ? c-'0' : (c|32)-'a'+10; }
static uint8_t *hexbytes(size_t *n) {
    if (!more()) die("hex");
    char *t = tok();
    if (!strcmp(t, "-")) { *n = 0; return NULL; }
    size_t l = strlen(t)/2; uint8_t *b = malloc(l+1);
    for (size_t i = 0; i < l; i++) b[i] = hexdig(t[2*i])*16 + hexdig(t[2*i+1]);
    *n = l; return b;
}

// ---------------------------------------------------------------- output
static long unx(double v, double t) {
    double y = v/xs - t;
    if (!(fabs(y) < 1e9) || y != floor(y)) return NOTINT;
    if ((y+t)*xs != v) return NOTINT;
    return (long)y;
}
static void outpt(struct tg_point p) { printf("[%ld,%ld]", unx(p.x, xtx), unx(p.y, xty)); }
static void outrect(struct tg_rect r) {
    printf("[%ld,%ld,%ld,%ld]", unx(r.min.x, xtx), unx(r.min.y, xty), unx(r.max.x, xtx), unx(r.max.y, xty));
}
// fixed point (1/65536), rounded outward, for index rectangles; only scaled
static long fix16(double v, bool up) { v = v/xs*65536; return fabs(v) < 2e9 ? (long)(up ? ceil(v) : floor(v)) : v < 0 ? -NOTINT : NOTINT; }
static void outfix(struct tg_rect r) { printf("[%ld,%ld,%ld,%ld]", fix16(r.min.x, 0), fix16(r.min.y, 0), fix16(r.max.x, 1), fix16(r.max.y, 1)); }
static void outbits(double d) {
    uint8_t b[8]; memcpy(b, &d, 8); printf("[");
    for (int i = 0; i < 8; i++) printf(i ? ",%d" : "%d", b[i]);
    printf("]");
}
static void outbytes(const void *p, size_t n) {
    const uint8_t *b = p; putchar('[');
    for (size_t i = 0; i < n; i++) printf(i ? ",%d" : "%d", b[i]);
    putchar(']');
}
static void outraw(const struct tg_point *p, int n) {
    putchar('[');
    for (int i = 0; i < n; i++) { if (i) putchar(','); putchar('['); outbits(p[i].x); putchar(','); outbits(p[i].y); putchar(']'); }
    putchar(']');
}
static void outring_raw(const struct tg_ring *r) { outraw(tg_ring_points(r), tg_ring_num_points(r)); }
static void outpoly_raw(const struct tg_poly *p) {
    putchar('[');
    if (p) {
        outring_raw(tg_poly_exterior(p));
        for (int i = 0; i < tg_poly_num_holes(p); i++) { putchar(','); outring_raw(tg_poly_hole_at(p, i)); }
    }
    putchar(']');
}

// Full dump of a geometry through the public accessors. Every record has the
// same fields, so that the specification can compare records of any geometry.
static void dump(const struct tg_geom *g) {
    if (!g) { printf("{\"t\":0}"); return; }
    const char *err = tg_geom_error(g);
    if (err) { printf("{\"t\":-1,\"err\":"); outbytes(err, strlen(err)); printf("}"); return; }
    int t = tg_geom_typeof(g);
    printf("{\"t\":%d,\"ft\":%d,\"fc\":%d,\"d\":%d,\"z\":%d,\"m\":%d,\"e\":%d", t,
        tg_geom_is_feature(g), tg_geom_is_featurecollection(g), tg_geom_dims(g),
        tg_geom_has_z(g), tg_geom_has_m(g), tg_geom_is_empty(g));
    printf(",\"p\":");
    if (t == TG_POINT && !tg_geom_is_empty(g)) { struct tg_point p = tg_geom_point(g); outraw(&p, 1); } else printf("[]");
    printf(",\"pz\":"); outbits(tg_geom_z(g)); printf(",\"pm\":"); outbits(tg_geom_m(g));
    printf(",\"l\":");
    if (t == TG_LINESTRING && tg_geom_line(g)) outraw(tg_line_points(tg_geom_line(g)), tg_line_num_points(tg_geom_line(g))); else printf("[]");
    printf(",\"r\":");
    if (t == TG_POLYGON) outpoly_raw(tg_geom_poly(g)); else printf("[]");
    printf(",\"mp\":[");
    for (int i = 0; i < tg_geom_num_points(g); i++) { struct tg_point p = tg_geom_point_at(g, i); if (i) putchar(','); putchar('['); outbits(p.x); putchar(','); outbits(p.y); putchar(']'); }
    printf("],\"ml\":[");
    for (int i = 0; i < tg_geom_num_lines(g); i++) { const struct tg_line *l = tg_geom_line_at(g, i); if (i) putchar(','); outraw(tg_line_points(l), tg_line_num_points(l)); }
    printf("],\"mr\":[");
    for (int i = 0; i < tg_geom_num_polys(g); i++) { if (i) putchar(','); outpoly_raw(tg_geom_poly_at(g, i)); }
    printf("],\"x\":[");
    int nx = tg_geom_num_extra_coords(g); const double *xc = tg_geom_extra_coords(g);
    for (int i = 0; i < nx; i++) { if (i) putchar(','); outbits(xc[i]); }
    printf("],\"j\":");
    const char *xj = tg_geom_extra_json(g);
    outbytes(xj, xj ? strlen(xj) : 0);
    printf(",\"hj\":%d,\"c\":[", xj != NULL);
    if (t == TG_GEOMETRYCOLLECTION)
        for (int i = 0; i < tg_geom_num_geometries(g); i++) { if (i) putchar(','); dump(tg_geom_geometry_at(g, i)); }
    printf("],\"rc\":"); struct tg_rect r = tg_geom_rect(g); putchar('['); outbits(r.min.x); putchar(','); outbits(r.min.y); putchar(','); outbits(r.max.x); putchar(','); outbits(r.max.y); putchar(']');
    double mn[4] = {0}, mx[4] = {0}; int fd = tg_geom_fullrect(g, mn, mx);
    printf(",\"fr\":[");
    for (int i = 0; i < fd; i++) { if (i) putchar(','); putchar('['); outbits(mn[i]); putchar(','); outbits(mx[i]); putchar(']'); }
    printf("]}");
}

// Cheap structural fingerprint in model units (used where a scenario's
// coordinates are integers).
static void ipts(const struct tg_point *p, int n) {
    putchar('['); for (int i = 0; i < n; i++) { if (i) putchar(','); outpt(p[i]); } putchar(']');
}

static struct tg_geom *G(struct slot *s) { return (struct tg_geom*)s->p; }

// ---------------------------------------------------------------- callbacks
struct srch { int limit, n; long most; }; // most: no more than that are possible, so recording ends there
static bool it_pair(struct tg_segment a, int ai, struct tg_segment b, int bi, void *u) {
    struct srch *s = u;
    printf(s->n ? ",[%d,%d," : "[%d,%d,", ai, bi);
    outpt(a.a); putchar(','); outpt(a.b); putchar(','); outpt(b.a); putchar(','); outpt(b.b); putchar(']');
    s->n++;
    return !((s->limit && s->n >= s->limit) || s->n > s->most);
}
static long most_members(const struct tg_geom *g) { long a = tg_geom_num_points(g), b = tg_geom_num_lines(g), c = tg_geom_num_polys(g), d = tg_geom_num_geometries(g);
    if (b > a) a = b; if (c > a) a = c; return d > a ? d : a; }
static bool it_geom(const struct tg_geom *g, int i, void *u) {
    struct srch *s = u;
    (void)g;
    printf(s->n ? ",[%d," : "[%d,", i); outrect(tg_geom_rect(g)); putchar(']');
    s->n++;
    return !((s->limit && s->n >= s->limit) || s->n > s->most);
}
// Distances to the bounding box of a segment: exact in doubles, and consistent
// (a segment is never closer than a rectangle that holds it). Staged callbacks
// answer with a part of the distance first and ask to be called again.
struct near { struct tg_point q; int limit, n, metric, mode, rcalls, scalls; long most; };
static double dclamp(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static double near_box(struct near *n, struct tg_rect r) {
    double dx = n->q.x - dclamp(n->q.x, r.min.x, r.max.x), dy = n->q.y - dclamp(n->q.y, r.min.y, r.max.y);
    if (n->metric == 1) return fabs(dx)+fabs(dy);
    if (n->metric == 2) return fmax(fabs(dx), fabs(dy));
    return dx*dx+dy*dy;
}
static double near_stage(double d, int *more, int stages) {
    int k = ++*more;
    if (k >= stages) { *more = 0; return d; }
    return d*k/8;
}
static double near_rect(struct tg_rect r, int *more, void *u) {
    struct near *n = u; n->rcalls++;
    return near_stage(near_box(n, r), more, n->mode & 1 ? 3 : 1);
}
static double near_seg(struct tg_segment s, int *more, void *u) {
    struct near *n = u; n->scalls++;
    return near_stage(near_box(n, tg_segment_rect(s)), more, n->mode & 2 ? 4 : 1);
}
static bool it_near(struct tg_segment s, double d, int i, void *u) {
    struct near *n = u;
    double scale = n->metric == 0 ? xs*xs : xs;
    double v = d/scale;
    printf(n->n ? ",[%d,%ld," : "[%d,%ld,", i, (v == floor(v) && fabs(v) < 1e9) ? (long)v : NOTINT);
    outpt(s.a); putchar(','); outpt(s.b); putchar(']');
    n->n++;
    return !((n->limit && n->n >= n->limit) || n->n > n->most);
}

typedef bool (*pred)(const struct tg_geom *, const struct tg_geom *);
static pred preds[] = { tg_geom_equals, tg_geom_intersects, tg_geom_disjoint, tg_geom_contains,
    tg_geom_within, tg_geom_covers, tg_geom_coveredby, tg_geom_touches };

static struct tg_geom *do_parse(const char *fmt, enum tg_index ix, const uint8_t *b, size_t n) {
    // exact-size heap copy so that one byte too far is seen by ASan
    uint8_t *c = malloc(n ? n : 1); memcpy(c, b ? b : (const uint8_t*)"", n);
    struct tg_geom *g = NULL; bool plain = ix == TG_DEFAULT && n%2; // the entry points without an option
    if (!strcmp(fmt, "geojson")) g = plain ? tg_parse_geojsonn((char*)c, n) : tg_parse_geojsonn_ix((char*)c, n, ix);
    else if (!strcmp(fmt, "wkt")) g = plain ? tg_parse_wktn((char*)c, n) : tg_parse_wktn_ix((char*)c, n, ix);
    else if (!strcmp(fmt, "wkb")) g = plain ? tg_parse_wkb(c, n) : tg_parse_wkb_ix(c, n, ix);
    else if (!strcmp(fmt, "hex")) g = plain ? tg_parse_hexn((char*)c, n) : tg_parse_hexn_ix((char*)c, n, ix);
    else if (!strcmp(fmt, "geobin")) g = plain ? tg_parse_geobin(c, n) : tg_parse_geobin_ix(c, n, ix);
    else if (!strcmp(fmt, "auto")) g = plain ? tg_parse(c, n) : tg_parse_ix(c, n, ix);
    else {
        // NUL-terminated entry points
        char *z = malloc(n+1); memcpy(z, c, n); z[n] = 0;
        if (!strcmp(fmt, "geojsonz")) g = plain ? tg_parse_geojson(z) : tg_parse_geojson_ix(z, ix);
        else if (!strcmp(fmt, "wktz")) g = plain ? tg_parse_wkt(z) : tg_parse_wkt_ix(z, ix);
        else if (!strcmp(fmt, "hexz")) g = plain ? tg_parse_hex(z) : tg_parse_hex_ix(z, ix);
        else die("fmt");
        free(z);
    }
    memset(c, 0xEE, n); // the geometry may not keep a pointer into its input
    free(c);
    return g;
}
static void gbin(const uint8_t *b, size_t n) {
        uint8_t *e = malloc(n ? n : 1); memcpy(e, b ? b : (uint8_t*)"", n);
        double mn[6], mx[6]; for (int i = 0; i < 6; i++) mn[i] = mx[i] = -12345;
        int d = tg_geobin_fullrect(e, n, mn, mx);
        printf("{\"d\":%d,\"fr\":[", d); for (int i = 0; i < d && i < 4; i++) { if (i) putchar(','); putchar('['); outbits(mn[i]); putchar(','); outbits(mx[i]); putchar(']'); }
        int clean = 1; for (int i = d < 0 ? 0 : d; i < 6; i++) if (mn[i] != -12345 || mx[i] != -12345) clean = 0;
        struct tg_rect r = tg_geobin_rect(e, n); struct tg_point p = tg_geobin_point(e, n);
        printf("],\"clean\":%d,\"rc\":[", clean); outbits(r.min.x); putchar(','); outbits(r.min.y); putchar(','); outbits(r.max.x); putchar(','); outbits(r.max.y);
        printf("],\"pt\":["); outbits(p.x); putchar(','); outbits(p.y); printf("]}"); free(e);
}

static size_t do_write(const struct tg_geom *g, const char *fmt, void *dst, size_t n) {
    if (!strcmp(fmt, "geojson")) return tg_geom_geojson(g, dst, n);
    if (!strcmp(fmt, "wkt")) return tg_geom_wkt(g, dst, n);
    if (!strcmp(fmt, "wkb")) return tg_geom_wkb(g, dst, n);
    if (!strcmp(fmt, "hex")) return tg_geom_hex(g, dst, n);
    if (!strcmp(fmt, "geobin")) return tg_geom_geobin(g, dst, n);
    die("fmt"); return 0;
}
// small numbers for addresses, in the order in which they are first seen
static int intern(const void *p) {
    static const void **tab; static int *num; static size_t cap, cnt;
    if (!p) return 0;
    if (cnt*2 >= cap) {
        size_t ncap = cap ? cap*2 : 1024; const void **nt = calloc(ncap, sizeof *nt); int *nn = calloc(ncap, sizeof *nn);
        for (size_t i = 0; i < cap; i++) if (tab[i]) { size_t h = ((uintptr_t)tab[i]>>4)*2654435761u & (ncap-1); while (nt[h]) h = (h+1)&(ncap-1); nt[h] = tab[i]; nn[h] = num[i]; }
        free(tab); free(num); tab = nt; num = nn; cap = ncap;
    }
    size_t h = ((uintptr_t)p>>4)*2654435761u & (cap-1);
    while (tab[h] && tab[h] != p) h = (h+1)&(cap-1);
    if (!tab[h]) { tab[h] = p; num[h] = ++cnt; }
    return num[h];
}
// Everything that a geometry tells about itself, in one number.
static void dump(const struct tg_geom *g);
static bool cnt_geom(const struct tg_geom *g, int i, void *u) { (void)g; *(long*)u += 1000+i; return true; }
static void idx_print(const struct tg_ring *r) {
    int nl = tg_ring_index_num_levels(r);
    printf("|%d,%d,%d,%d,%d", tg_ring_index_spread(r), nl, tg_ring_num_segments(r), tg_ring_convex(r), tg_ring_clockwise(r));
    for (int i = 0; i < nl; i++) printf(",%d", tg_ring_index_level_num_rects(r, i));
}
static void tell(const struct tg_geom *g) {
    dump(g);
    if (!g || tg_geom_error(g)) return;
    static const char *fm[] = { "geojson", "wkt", "wkb", "hex", "geobin" };
    for (int i = 0; i < 5; i++) {
        size_t n = do_write(g, fm[i], NULL, 0); uint8_t *b = malloc(n+1); do_write(g, fm[i], b, n+1);
        printf("|"); fwrite(b, 1, n, stdout); free(b);
    }
    struct tg_rect r = tg_geom_rect(g); double w = r.max.x-r.min.x, h = r.max.y-r.min.y;
    printf("|");
    for (int i = -1; i <= 5; i++) for (int j = -1; j <= 5; j++) putchar('0'+tg_geom_intersects_xy(g, r.min.x+w*i/4, r.min.y+h*j/4));
    struct tg_rect q = { { r.min.x+w/3, r.min.y+h/3 }, { r.min.x+w/2, r.min.y+h/2 } };
    long c = 0; tg_geom_search(g, q, cnt_geom, &c);
    printf("|%d%d|%ld", tg_geom_intersects_rect(g, q), tg_geom_intersects(g, g), c);
    if (tg_geom_typeof(g) < 4) printf("|%d%d", tg_geom_equals(g, g), tg_geom_covers(g, g));
    if (tg_geom_line(g)) idx_print((const struct tg_ring*)tg_geom_line(g));
    if (tg_geom_poly(g)) idx_print(tg_poly_exterior(tg_geom_poly(g)));
}
static long fprint(const struct tg_geom *g) {
    char *b = NULL; size_t n = 0; FILE *o = stdout; FILE *m = open_memstream(&b, &n);
    stdout = m; tell(g); fclose(m); stdout = o;
    uint64_t h = 14695981039346656037ull; for (size_t i = 0; i < n; i++) { h ^= (uint8_t)b[i]; h *= 1099511628211ull; }
    if (getenv("DRV_TELL")) { fprintf(stderr, "tell: %.*s\n", (int)n, b); }
    free(b); return (long)((h ^ (h>>31)) & 0x7ffffffe) % NOTINT;
}
static int nser;
static void ser_line(const struct tg_line *l) {
    if (!l) return;
    int np = tg_line_num_points(l), nl = tg_line_index_num_levels(l);
    printf("%s{\"np\":%d,\"closed\":false,\"ring\":false,\"spread\":%d,\"mem\":%zu,\"lv\":[", nser++ ? "," : "", np, tg_line_index_spread(l), tg_line_memsize(l));
    for (int i = 0; i < nl; i++) printf("%s%d", i ? "," : "", tg_line_index_level_num_rects(l, i));
    printf("]}");
}
static void ser_ring(const struct tg_ring *r) {
    if (!r) return;
    int np = tg_ring_num_points(r), nl = tg_ring_index_num_levels(r);
    const struct tg_point *p = tg_ring_points(r);
    bool closed = np > 1 && p[0].x == p[np-1].x && p[0].y == p[np-1].y;
    printf("%s{\"np\":%d,\"closed\":%s,\"ring\":true,\"spread\":%d,\"mem\":%zu,\"lv\":[", nser++ ? "," : "", np, closed ? "true" : "false", tg_ring_index_spread(r), tg_ring_memsize(r));
    for (int i = 0; i < nl; i++) printf("%s%d", i ? "," : "", tg_ring_index_level_num_rects(r, i));
    printf("]}");
}
static void ser_poly(const struct tg_poly *p) {
    if (!p) return;
    ser_ring(tg_poly_exterior(p));
    for (int i = 0; i < tg_poly_num_holes(p); i++) ser_ring(tg_poly_hole_at(p, i));
}
static void ser_geom(const struct tg_geom *g) {
    ser_line(tg_geom_line(g)); ser_poly(tg_geom_poly(g));
    for (int i = 0; i < tg_geom_num_lines(g); i++) ser_line(tg_geom_line_at(g, i));
    for (int i = 0; i < tg_geom_num_polys(g); i++) ser_poly(tg_geom_poly_at(g, i));
    for (int i = 0; i < tg_geom_num_geometries(g); i++) ser_geom(tg_geom_geometry_at(g, i));
}
static void sers(struct slot *s) {
    switch (s->k) { case K_GEOM: ser_geom(s->p); break; case K_RING: ser_ring(s->p); break; case K_LINE: ser_line(s->p); break; case K_POLY: ser_poly(s->p); break; default: break; }
}
static size_t msize(struct slot *s) {
    switch (s->k) { case K_GEOM: return tg_geom_memsize(s->p); case K_RING: return tg_ring_memsize(s->p); case K_LINE: return tg_line_memsize(s->p); case K_POLY: return tg_poly_memsize(s->p); default: return 0; }
}
static bool as_error(struct slot *s) { return s->k == K_GEOM && tg_geom_error(s->p); }
static void put(struct slot *s, enum kind k, void *p) { s->k = p ? k : K_NONE; s->p = p; printf("{\"ok\":%d,\"a\":%d,\"er\":%d}", p != NULL, intern(p), as_error(s)); }

static void freeslot(struct slot *s) {
    switch (s->k) {
    case K_GEOM: tg_geom_free(s->p); break;
    case K_RING: tg_ring_free(s->p); break;
    case K_LINE: tg_line_free(s->p); break;
    case K_POLY: tg_poly_free(s->p); break;
    default: break;
    }
    s->k = K_NONE; s->p = NULL;
}
static struct tg_point *pts(long *n) {
    *n = I(); struct tg_point *p = malloc(sizeof(struct tg_point)*(*n > 0 ? *n : 1));
    for (long i = 0; i < *n; i++) { p[i].x = X(); p[i].y = Y(); }
    return p;
}
static void **ptrs(long *n) {
    *n = I(); void **p = malloc(sizeof(void*)*(*n > 0 ? *n : 1));
    for (long i = 0; i < *n; i++) p[i] = S()->p;
    return p;
}

// ---------------------------------------------------------------- accessors
static const int FAR[2] = { INT_MIN, INT_MAX };
static long num(double v) { return v == floor(v) && fabs(v) < 1e9 ? (long)v : NOTINT; }
static void outseg(struct tg_segment s) { putchar('['); outpt(s.a); putchar(','); outpt(s.b); putchar(']'); }
static void outstr(const char *s) { if (s) { putchar('['); outbytes(s, strlen(s)); putchar(']'); } else printf("[]"); }
// every accessor of a ring (or line), absent ones and indexes that are out of range included
static void acc_series(const struct tg_ring *r, bool ln) {
    const struct tg_line *l = (const struct tg_line*)r;
    int np = ln ? tg_line_num_points(l) : tg_ring_num_points(r), ns = ln ? tg_line_num_segments(l) : tg_ring_num_segments(r);
    const struct tg_point *ps = ln ? tg_line_points(l) : tg_ring_points(r);
    printf("{\"np\":%d,\"ns\":%d,\"hp\":%d,\"pts\":", np, ns, ps != NULL); ipts(ps, ps ? np : 0);
#define PAT(i) outpt(ln ? tg_line_point_at(l, i) : tg_ring_point_at(r, i))
#define SAT(i) outseg(ln ? tg_line_segment_at(l, i) : tg_ring_segment_at(r, i))
    printf(",\"pat\":["); for (int i = -2; i <= np+1; i++) { if (i > -2) putchar(','); PAT(i); } for (int i = 0; i < 2; i++) { putchar(','); PAT(FAR[i]); }
    printf("],\"seg\":["); for (int i = -2; i <= ns+1; i++) { if (i > -2) putchar(','); SAT(i); } for (int i = 0; i < 2; i++) { putchar(','); SAT(FAR[i]); }
    printf("],\"rect\":"); outrect(ln ? tg_line_rect(l) : tg_ring_rect(r));
    int nl = ln ? tg_line_index_num_levels(l) : tg_ring_index_num_levels(r);
#define NRECTS(i) (ln ? tg_line_index_level_num_rects(l, i) : tg_ring_index_level_num_rects(r, i))
#define RECT(i, j) outrect(ln ? tg_line_index_level_rect(l, i, j) : tg_ring_index_level_rect(r, i, j))
    printf(",\"meas\":[%ld,%ld,%d,%d,%d,%d,%d]", num(ln ? 0 : tg_ring_area(r)), num(ln ? tg_line_length(l) : tg_ring_perimeter(r)), ln ? tg_line_clockwise(l) : tg_ring_clockwise(r), ln ? 0 : tg_ring_convex(r),
        ln ? tg_line_index_spread(l) : tg_ring_index_spread(r), nl, (ln ? tg_line_memsize(l) : tg_ring_memsize(r)) > 0);
    // levels and rectangles that are not there
    int out[] = { -2, -1, nl, nl+1, FAR[0], FAR[1] };
    printf(",\"nolev\":["); for (int i = 0; i < 6; i++) printf(i ? ",%d" : "%d", NRECTS(out[i]));
    printf("],\"norect\":["); for (int i = 0; i < 6; i++) { if (i) putchar(','); RECT(out[i], 0); }
    for (int k = 0; k < nl; k++) { int n = NRECTS(k); int o[] = { -2, -1, n, n+1, FAR[0], FAR[1] }; for (int i = 0; i < 6; i++) { putchar(','); RECT(k, o[i]); } }
    printf("]}");
}
static void acc_poly(const struct tg_poly *p) {
    const struct tg_ring *e = tg_poly_exterior(p); int n = tg_poly_num_holes(p);
    printf("{\"ext\":["); if (e) ipts(tg_ring_points(e), tg_ring_num_points(e));
    printf("],\"nh\":%d,\"h\":[", n);
    for (int i = -2; i <= n+3; i++) { const struct tg_ring *h = tg_poly_hole_at(p, i < n+2 ? i : FAR[i-n-2]); if (i > -2) putchar(','); putchar('['); if (h) ipts(tg_ring_points(h), tg_ring_num_points(h)); putchar(']'); }
    printf("],\"rect\":"); outrect(tg_poly_rect(p)); printf(",\"meas\":[%d,%d]}", tg_poly_clockwise(p), tg_poly_memsize(p) > 0);
}
static void acc_shape(const struct tg_geom *g) { // the positions of a line or polygon, or nothing
    if (!g) { printf("[]"); return; }
    const struct tg_line *l = tg_geom_line(g); const struct tg_poly *p = tg_geom_poly(g);
    printf("[[");
    if (l) ipts(tg_line_points(l), tg_line_num_points(l));
    if (p) { const struct tg_ring *e = tg_poly_exterior(p); ipts(tg_ring_points(e), tg_ring_num_points(e));
        for (int i = 0; i < tg_poly_num_holes(p); i++) { putchar(','); const struct tg_ring *h = tg_poly_hole_at(p, i); ipts(tg_ring_points(h), tg_ring_num_points(h)); } }
    printf("]]");
}
static void acc_geom(const struct tg_geom *g) {
    int t = tg_geom_typeof(g);
    printf("{\"t\":%d,\"f\":[%d,%d,%d,%d,%d,%d],\"rect\":", t, tg_geom_is_feature(g), tg_geom_is_featurecollection(g), tg_geom_dims(g), tg_geom_has_z(g), tg_geom_has_m(g), tg_geom_is_empty(g));
    outrect(tg_geom_rect(g));
    struct tg_point c = tg_geom_point(g); printf(",\"c2\":[%ld,%ld],\"line\":", num(c.x*2), num(c.y*2));
    acc_shape((const struct tg_geom*)tg_geom_line(g)); printf(",\"poly\":"); acc_shape((const struct tg_geom*)tg_geom_poly(g));
    int n[4] = { tg_geom_num_points(g), tg_geom_num_lines(g), tg_geom_num_polys(g), tg_geom_num_geometries(g) };
    int n0 = n[0]+n[1]+n[2]+n[3]; // all four are asked for indexes around both ends of what there is
    printf(",\"n\":[%d,%d,%d,%d],\"pat\":[", n[0], n[1], n[2], n[3]);
#define ALLI(out) for (int j = -2; j <= n0+3; j++) { int i = j < n0+2 ? j : FAR[j-n0-2]; if (j > -2) putchar(','); out; }
    ALLI(outpt(tg_geom_point_at(g, i)));
    printf("],\"lat\":["); ALLI(acc_shape((const struct tg_geom*)tg_geom_line_at(g, i)));
    printf("],\"yat\":["); ALLI(acc_shape((const struct tg_geom*)tg_geom_poly_at(g, i)));
    printf("],\"gat\":["); ALLI(const struct tg_geom *m = tg_geom_geometry_at(g, i); putchar('['); if (m) acc_geom(m); putchar(']'));
    int nx = tg_geom_num_extra_coords(g); const double *xc = tg_geom_extra_coords(g);
    printf("],\"nx\":%d,\"hx\":%d,\"xc\":[", nx, xc != NULL); for (int i = 0; xc && i < nx; i++) printf(i ? ",%ld" : "%ld", num(xc[i]));
    printf("],\"zm\":[%ld,%ld],\"xj\":", num(tg_geom_z(g)), num(tg_geom_m(g))); outstr(tg_geom_extra_json(g));
    printf(",\"err\":"); outstr(tg_geom_error(g));
    double mn[4], mx[4]; for (int i = 0; i < 4; i++) mn[i] = mx[i] = 0; int d = tg_geom_fullrect(g, mn, mx);
    printf(",\"fr\":["); for (int i = 0; i < d && i < 4; i++) printf(i ? ",[%ld,%ld]" : "[%ld,%ld]", num(mn[i]), num(mx[i]));
    printf("],\"ms\":%d}", tg_geom_memsize(g) > 0);
}
// what can be asked of nothing
static bool never_g(const struct tg_geom *g, int i, void *u) { (void)g; (void)i; ++*(int*)u; return true; }
static bool never_p(struct tg_segment a, int ai, struct tg_segment b, int bi, void *u) { (void)a; (void)ai; (void)b; (void)bi; ++*(int*)u; return true; }
static void acc_none(void) {
    struct tg_point o = { 0, 0 }, q = { 4, 4 }; struct tg_rect r = { o, q }; int calls = 0;
    struct tg_point sq[] = { { 0, 0 }, { 4, 0 }, { 4, 4 }, { 0, 4 }, { 0, 0 } };
    struct tg_geom *g = tg_geom_new_point(o); struct tg_ring *ri = tg_ring_new(sq, 5); struct tg_line *li = tg_line_new(sq, 4);
    printf("{\"pred\":[");
    for (int i = 0; i < 8; i++) printf(i ? ",[%d,%d,%d,%d]" : "[%d,%d,%d,%d]", preds[i](NULL, g), preds[i](g, NULL), preds[i](NULL, NULL), preds[i]((void*)ri, NULL));
    printf("],\"isect\":[%d,%d],\"w\":[", tg_geom_intersects_rect(NULL, r), tg_geom_intersects_xy(NULL, 0, 0));
    static const char *fm[] = { "geojson", "wkt", "wkb", "hex", "geobin" };
    for (int i = 0; i < 5; i++) { char b[16]; memset(b, 'x', 16); size_t n = do_write(NULL, fm[i], b, 16); printf(i ? ",[%zu,%d]" : "[%zu,%d]", n, b[0]); }
    tg_geom_search(NULL, r, never_g, &calls); tg_geom_search(g, r, never_g, &calls); tg_geom_search((void*)ri, r, never_g, &calls);
    tg_ring_ring_search(NULL, ri, never_p, &calls); tg_ring_ring_search(ri, NULL, never_p, &calls); tg_line_line_search(NULL, li, never_p, &calls);
    tg_line_line_search(li, NULL, never_p, &calls); tg_ring_line_search(NULL, li, never_p, &calls); tg_ring_line_search(ri, NULL, never_p, &calls);
    tg_ring_ring_search(ri, ri, NULL, NULL); tg_geom_search(g, r, NULL, NULL);
    tg_geom_free(NULL); tg_ring_free(NULL); tg_line_free(NULL); tg_poly_free(NULL);
    printf("],\"calls\":%d,\"made\":%d,\"ts\":[", calls, (tg_geom_clone(NULL) != NULL)+(tg_ring_clone(NULL) != NULL)+(tg_line_clone(NULL) != NULL)+(tg_poly_clone(NULL) != NULL)
        +(tg_geom_copy(NULL) != NULL)+(tg_ring_copy(NULL) != NULL)+(tg_line_copy(NULL) != NULL)+(tg_poly_copy(NULL) != NULL)+(tg_geom_new_error(NULL) != NULL)
        +(tg_geom_new_linestring(NULL) != NULL)+(tg_geom_new_polygon(NULL) != NULL)+(tg_poly_new(NULL, NULL, 0) != NULL)+(tg_parse(NULL, 0) != NULL));
    int ts[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, -1, 100 };
    for (int i = 0; i < 11; i++) { const char *s = tg_geom_type_string(ts[i]); printf(i ? ",\"" : "\""); for (; *s; s++) putchar(*s < ' ' || *s > 'z' ? '?' : *s); putchar('"'); }
    printf("]}"); tg_geom_free(g); tg_ring_free(ri); tg_line_free(li);
}
static void acc(struct slot *s) {
    const void *p = s->p; bool no = !p;
    printf("{\"k\":%d,\"g\":", s->k); acc_geom(p);
    printf(",\"s\":["); if (no || s->k == K_RING) acc_series(p, false);
    printf("],\"l\":["); if (no || s->k == K_LINE) acc_series(p, true);
    printf("],\"y\":["); if (no || s->k == K_POLY || s->k == K_RING) acc_poly(p);
    printf("]}");
}

static void run(void) {
    char *c = tok();
#define IS(x) (!strcmp(c, x))
    if (IS("nop")) printf("{}");
    else if (IS("echo")) printf("{\"echo\":%s}", cur ? strtok(cur, "\n") : "0");
    else if (IS("xf")) { int e = I(); xs = ldexp(1, e); xtx = I(); xty = I(); printf("{}"); }
    else if (IS("env")) {
        char *w = tok();
        if (!strcmp(w, "ix")) tg_env_set_index(IX());
        else if (!strcmp(w, "spread")) tg_env_set_index_spread(I());
        else if (!strcmp(w, "fixed")) tg_env_set_print_fixed_floats(I());
        printf("{}");
    }
    else if (IS("ring")) { struct slot *s = S(); enum tg_index ix = IX(); long n; struct tg_point *p = pts(&n); put(s, K_RING, ix == TG_DEFAULT && n%2 ? tg_ring_new(p, n) : tg_ring_new_ix(p, n, ix)); free(p); }
    else if (IS("line")) { struct slot *s = S(); enum tg_index ix = IX(); long n; struct tg_point *p = pts(&n); put(s, K_LINE, ix == TG_DEFAULT && n%2 ? tg_line_new(p, n) : tg_line_new_ix(p, n, ix)); free(p); }
    else if (IS("poly")) { struct slot *s = S(); struct slot *e = S(); long n; void **h = ptrs(&n); if (n == 0 && more()) n = I(); put(s, K_POLY, tg_poly_new(e->p, (const struct tg_ring *const*)h, n)); free(h); }
    else if (IS("pt")) { struct slot *s = S(); struct tg_point p; p.x = X(); p.y = Y(); put(s, K_GEOM, tg_geom_new_point(p)); }
    else if (IS("gline")) { struct slot *s = S(); put(s, K_GEOM, tg_geom_new_linestring(S()->p)); }
    else if (IS("gpoly")) { struct slot *s = S(); put(s, K_GEOM, tg_geom_new_polygon(S()->p)); }
    else if (IS("mp")) { struct slot *s = S(); long n; struct tg_point *p = pts(&n); put(s, K_GEOM, tg_geom_new_multipoint(p, n)); free(p); }
    else if (IS("ml")) { struct slot *s = S(); long n; void **p = ptrs(&n); put(s, K_GEOM, tg_geom_new_multilinestring((const struct tg_line*const*)p, n)); free(p); }
    else if (IS("mpoly")) { struct slot *s = S(); long n; void **p = ptrs(&n); put(s, K_GEOM, tg_geom_new_multipolygon((const struct tg_poly*const*)p, n)); free(p); }
    else if (IS("gc")) { struct slot *s = S(); long n; void **p = ptrs(&n); put(s, K_GEOM, tg_geom_new_geometrycollection((const struct tg_geom*const*)p, n)); free(p); }
    else if (IS("err")) { struct slot *s = S(); put(s, K_GEOM, tg_geom_new_error(tok())); }
    else if (IS("empty")) {
        struct slot *s = S(); long t = I(); struct tg_geom *g = NULL;
        switch (t) {
        case 1: g = tg_geom_new_point_empty(); break; case 2: g = tg_geom_new_linestring_empty(); break;
        case 3: g = tg_geom_new_polygon_empty(); break; case 4: g = tg_geom_new_multipoint_empty(); break;
        case 5: g = tg_geom_new_multilinestring_empty(); break; case 6: g = tg_geom_new_multipolygon_empty(); break;
        case 7: g = tg_geom_new_geometrycollection_empty(); break; }
        put(s, K_GEOM, g);
    }
    else if (IS("ext")) { // ext SLOT base dims(z|m|zm) geometry-args ncoords coords...(bits)
        struct slot *s = S(); char *b = tok(); char *d = tok(); struct tg_geom *g = NULL;
        int di = !strcmp(d, "z") ? 0 : !strcmp(d, "m") ? 1 : 2;
        if (!strcmp(b, "pt")) {
            struct tg_point p; p.x = X(); p.y = Y(); double z = D(); double m = di == 2 ? D() : 0;
            g = di == 0 ? tg_geom_new_point_z(p, z) : di == 1 ? tg_geom_new_point_m(p, z) : tg_geom_new_point_zm(p, z, m);
        } else {
            void *one = NULL; void **many = NULL; struct tg_point *pp = NULL; long n = 0;
            if (!strcmp(b, "line") || !strcmp(b, "poly")) one = S()->p;
            else if (!strcmp(b, "mp")) pp = pts(&n); else many = ptrs(&n);
            long nc = I(); double *xc = malloc(sizeof(double)*(nc > 0 ? nc : 1));
            for (long i = 0; i < nc; i++) xc[i] = D();
#define E3(f, a) (di == 0 ? tg_geom_new_##f##_z(a, xc, nc) : di == 1 ? tg_geom_new_##f##_m(a, xc, nc) : tg_geom_new_##f##_zm(a, xc, nc))
#define E4(f, a) (di == 0 ? tg_geom_new_##f##_z(a, n, xc, nc) : di == 1 ? tg_geom_new_##f##_m(a, n, xc, nc) : tg_geom_new_##f##_zm(a, n, xc, nc))
            if (!strcmp(b, "line")) g = E3(linestring, one);
            else if (!strcmp(b, "poly")) g = E3(polygon, one);
            else if (!strcmp(b, "mp")) g = E4(multipoint, pp);
            else if (!strcmp(b, "ml")) g = E4(multilinestring, (const struct tg_line*const*)many);
            else if (!strcmp(b, "mpoly")) g = E4(multipolygon, (const struct tg_poly*const*)many);
            else die("ext");
            free(xc); free(many); free(pp);
        }
        put(s, K_GEOM, g);
    }
    else if (IS("rpt")) { struct slot *s = S(); struct tg_point p; p.x = D(); p.y = D(); put(s, K_GEOM, tg_geom_new_point(p)); }
    else if (IS("rmp") || IS("rline") || IS("rring")) { // raw bit patterns
        struct slot *s = S(); enum tg_index ix = IX(); long n = I();
        struct tg_point *p = malloc(sizeof(struct tg_point)*(n+1));
        for (long i = 0; i < n; i++) { p[i].x = D(); p[i].y = D(); }
        if (IS("rmp")) put(s, K_GEOM, tg_geom_new_multipoint(p, n));
        else if (IS("rline")) put(s, K_LINE, tg_line_new_ix(p, n, ix));
        else put(s, K_RING, tg_ring_new_ix(p, n, ix));
        free(p);
    }
    else if (IS("parse")) { struct slot *s = S(); char *f = tok(); enum tg_index ix = IX(); size_t n; uint8_t *b = hexbytes(&n); struct tg_geom *g = do_parse(f, ix, b, n); free(b); s->k = g ? K_GEOM : K_NONE; s->p = g; printf("{\"ok\":%d,\"err\":%d,\"a\":%d,\"er\":%d}", g != NULL, g && tg_geom_error(g), intern(g), as_error(s)); }
    else if (IS("via")) { // via D S fmt ix: what S becomes when written and parsed back
        struct slot *d = S(), *s = S(); char *f = tok(); enum tg_index ix = IX();
        size_t n = do_write(G(s), f, NULL, 0); uint8_t *b = malloc(n+1); do_write(G(s), f, b, n+1);
        struct tg_geom *g = do_parse(f, ix, b, n); free(b); bool bad = g && tg_geom_error(g);
        put(d, K_GEOM, g); (void)bad; }
    else if (IS("clone")) {
        struct slot *d = S(), *s = S(); void *p = NULL;
        switch (s->k) { case K_GEOM: p = tg_geom_clone(s->p); break; case K_RING: p = tg_ring_clone(s->p); break; case K_LINE: p = tg_line_clone(s->p); break; case K_POLY: p = tg_poly_clone(s->p); break; default: break; }
        d->k = p ? s->k : K_NONE; d->p = p; printf("{\"ok\":%d,\"same\":%d,\"a\":%d,\"er\":%d}", p != NULL, p == s->p, intern(p), as_error(d));
    }
    else if (IS("copy")) {
        struct slot *d = S(), *s = S(); void *p = NULL;
        switch (s->k) { case K_GEOM: p = tg_geom_copy(s->p); break; case K_RING: p = tg_ring_copy(s->p); break; case K_LINE: p = tg_line_copy(s->p); break; case K_POLY: p = tg_poly_copy(s->p); break; default: break; }
        d->k = p ? s->k : K_NONE; d->p = p; printf("{\"ok\":%d,\"same\":%d,\"a\":%d,\"er\":%d}", p != NULL, p == s->p, intern(p), as_error(d));
    }
    else if (IS("as")) { struct slot *d = S(), *s = S(); char *k = tok(); // upcast without taking ownership
        d->p = s->p; d->k = *k == 'g' ? K_GEOM : *k == 'p' ? K_POLY : *k == 'r' ? K_RING : K_LINE; printf("{}"); }
    else if (IS("member")) { // member D S what i: a clone of something that S holds
        struct slot *d = S(), *s = S(); char *w = tok(); int i = I(); void *p = NULL; enum kind k = K_NONE; struct tg_geom *g = G(s);
        if (!strcmp(w, "ext")) { p = tg_ring_clone(tg_poly_exterior(s->p)); k = K_RING; }
        else if (!strcmp(w, "hole")) { p = tg_ring_clone(tg_poly_hole_at(s->p, i)); k = K_RING; }
        else if (!strcmp(w, "line")) { p = tg_line_clone(tg_geom_line(g)); k = K_LINE; }
        else if (!strcmp(w, "poly")) { p = tg_poly_clone(tg_geom_poly(g)); k = K_POLY; }
        else if (!strcmp(w, "lat")) { p = tg_line_clone(tg_geom_line_at(g, i)); k = K_LINE; }
        else if (!strcmp(w, "pat")) { p = tg_poly_clone(tg_geom_poly_at(g, i)); k = K_POLY; }
        else if (!strcmp(w, "gat")) { p = tg_geom_clone(tg_geom_geometry_at(g, i)); k = K_GEOM; }
        else die("member");
        put(d, k, p); }
    else if (IS("st")) { // all that is held, and the memory
        printf("{\"h\":["); int n = 0;
        for (int i = 0; i < 64; i++) if (slots[i].k) printf("%s[%d,%d,%ld,%zu]", n++ ? "," : "", i, intern(slots[i].p), fprint(slots[i].p), msize(&slots[i]));
        printf("],\"bytes\":%zu,\"blocks\":%zu,\"nf\":%zu,\"bf\":%d}", live_bytes, live_blocks, failed, badfree); fail_at = 0; failed = 0; }
    else if (IS("sers")) { // index structure of every ring and line of everything held
        printf("{\"s\":["); int n = 0;
        for (int i = 0; i < NSLOT; i++) if (slots[i].k) { printf("%s{\"slot\":%d,\"series\":[", n++ ? "," : "", i); nser = 0; sers(&slots[i]); printf("]}"); }
        printf("]}"); }
    else if (IS("iferr")) { struct slot *s = S(); bool er = as_error(s); if (er) freeslot(s); printf("{\"freed\":%d}", er); }
    else if (IS("ifempty")) { struct slot *s = S(); if (s->k) printf("{\"skip\":1}"); else run(); }
    else if (IS("acc")) acc(S());
    else if (IS("accnone")) acc_none();
    else if (IS("forget")) { struct slot *s = S(); s->k = K_NONE; s->p = NULL; printf("{}"); }
    else if (IS("free")) { freeslot(S()); printf("{\"bf\":%d}", badfree); }
    else if (IS("freeall")) { for (int i = 0; i < NSLOT; i++) if (slots[i].k) freeslot(&slots[i]); printf("{\"bf\":%d,\"blocks\":%zu,\"bytes\":%zu}", badfree, live_blocks, live_bytes); }
    else if (IS("alloc")) printf("{\"blocks\":%zu,\"bytes\":%zu,\"total\":%zu,\"failed\":%zu,\"bf\":%d}", live_blocks, live_bytes, total_allocs, failed, badfree);
    else if (IS("fail")) { long n = I(); fail_at = n ? total_allocs + n : 0; fail_run = more() ? I() : 1; if (fail_run == 0) fail_run = SIZE_MAX/2; failed = 0; printf("{}"); }
    else if (IS("memsize")) {
        struct slot *s = S(); size_t n = 0;
        switch (s->k) { case K_GEOM: n = tg_geom_memsize(s->p); break; case K_RING: n = tg_ring_memsize(s->p); break; case K_LINE: n = tg_line_memsize(s->p); break; case K_POLY: n = tg_poly_memsize(s->p); break; default: break; }
        printf("{\"n\":%zu}", n);
    }
    else if (IS("rel")) {
        struct tg_geom *a = G(S()), *b = G(S()); char o[17];
        for (int i = 0; i < 8; i++) { o[i] = preds[i](a, b) ? '1' : '0'; o[8+i] = preds[i](b, a) ? '1' : '0'; }
        o[16] = 0; printf("{\"r\":[");
        for (int i = 0; i < 16; i++) printf(i ? ",%c" : "%c", o[i]);
        printf("]}");
    }
    else if (IS("loc")) { // loc slot n x y ... : intersects_xy, intersects, covers, contains, touches, (pt,g) within
        struct tg_geom *g = G(S()); long n; struct tg_point *p = pts(&n);
        printf("{\"r\":[");
        for (long i = 0; i < n; i++) {
            struct tg_geom *q = tg_geom_new_point(p[i]);
            printf(i ? ",[%d,%d,%d,%d,%d,%d,%d,%d]" : "[%d,%d,%d,%d,%d,%d,%d,%d]", tg_geom_intersects_xy(g, p[i].x, p[i].y), tg_geom_intersects(g, q), tg_geom_covers(g, q), tg_geom_contains(g, q), tg_geom_touches(g, q), tg_geom_within(q, g), tg_geom_intersects(q, g), tg_geom_touches(q, g));
            tg_geom_free(q);
        }
        printf("]}"); free(p);
    }
    else if (IS("irect")) { struct tg_geom *g = G(S()); struct tg_rect r; r.min.x = X(); r.min.y = Y(); r.max.x = X(); r.max.y = Y(); printf("{\"r\":%d}", tg_geom_intersects_rect(g, r)); }
    else if (IS("segseg")) { struct tg_segment s, t; s.a.x = X(); s.a.y = Y(); s.b.x = X(); s.b.y = Y(); t.a.x = X(); t.a.y = Y(); t.b.x = X(); t.b.y = Y(); printf("{\"r\":%d}", tg_segment_intersects_segment(s, t)); }
    else if (IS("rects")) { // rect functions
        struct tg_rect a, b; a.min.x = X(); a.min.y = Y(); a.max.x = X(); a.max.y = Y(); b.min.x = X(); b.min.y = Y(); b.max.x = X(); b.max.y = Y();
        printf("{\"ii\":%d,\"pi\":%d,\"ipr\":%d,\"ex\":", tg_rect_intersects_rect(a, b), tg_rect_intersects_point(a, b.min), tg_point_intersects_rect(b.min, a));
        outrect(tg_rect_expand(a, b)); printf(",\"ep\":"); outrect(tg_rect_expand_point(a, b.min));
        printf(",\"pr\":"); outrect(tg_point_rect(b.min));
        struct tg_segment s = { b.max, b.min }; printf(",\"sr\":"); outrect(tg_segment_rect(s));
        struct tg_point ce = tg_rect_center(a);
        printf(",\"c2\":[%ld,%ld]}", unx(ce.x*2-xtx*xs, xtx), unx(ce.y*2-xty*xs, xty));
    }
    else if (IS("dump")) { printf("{\"g\":"); dump(G(S())); printf("}"); }
    else if (IS("write")) { // write slot fmt n : n=-1 -> needed size first
        struct slot *s = S(); char *f = tok(); long n = I();
        if (n < 0) n = (long)do_write(G(s), f, NULL, 0) + 1;
        uint8_t *b = malloc(n+16); memset(b, 0xC7, n+16);
        uint8_t *ex = malloc(n ? n : 1); memset(ex, 0xC7, n); // exact-size buffer under ASan
        size_t r = do_write(G(s), f, n ? ex : NULL, n);
        memcpy(b, ex, n);
        size_t r2 = do_write(G(s), f, b, n);
        bool over = false; for (int i = 0; i < 16; i++) if (b[n+i] != 0xC7) over = true;
        printf("{\"ret\":%zu,\"ret2\":%zu,\"over\":%d,\"same\":%d,\"b\":", r, r2, over, n ? memcmp(b, ex, n) == 0 : 1); outbytes(ex, n); printf("}");
        free(b); free(ex);
    }
    else if (IS("gbin")) { size_t n; uint8_t *b = hexbytes(&n); gbin(b, n); free(b); } // GeoBIN header queries
    else if (IS("gbinw")) { struct tg_geom *g = G(S()); size_t n = tg_geom_geobin(g, NULL, 0); uint8_t *b = malloc(n+1); tg_geom_geobin(g, b, n); gbin(b, n); free(b); }
    else if (IS("rsearch")) { struct slot *a = S(), *b = S(); struct srch s = { I(), 0, (long)tg_ring_num_segments(a->p)*tg_ring_num_segments(b->p) }; printf("{\"h\":["); tg_ring_ring_search(a->p, b->p, it_pair, &s); printf("]}"); }
    else if (IS("lsearch")) { struct slot *a = S(), *b = S(); struct srch s = { I(), 0, (long)tg_line_num_segments(a->p)*tg_line_num_segments(b->p) }; printf("{\"h\":["); tg_line_line_search(a->p, b->p, it_pair, &s); printf("]}"); }
    else if (IS("rlsearch")) { struct slot *a = S(), *b = S(); struct srch s = { I(), 0, (long)tg_ring_num_segments(a->p)*tg_line_num_segments(b->p) }; printf("{\"h\":["); tg_ring_line_search(a->p, b->p, it_pair, &s); printf("]}"); }
    else if (IS("gsearch")) { struct slot *a = S(); struct tg_rect r; r.min.x = X(); r.min.y = Y(); r.max.x = X(); r.max.y = Y(); struct srch s = { I(), 0, most_members(G(a)) }; printf("{\"h\":["); tg_geom_search(G(a), r, it_geom, &s); printf("]}"); }
    else if (IS("nearest")) { // nearest S x y metric limit mode(1 staged rects, 2 staged segs, 4 no rect callback) failing-allocation
        struct slot *a = S(); struct near n = {0}; n.q.x = X(); n.q.y = Y(); n.metric = I(); n.limit = I(); n.mode = I(); long fa = I(); n.most = a->k == K_LINE ? tg_line_num_segments(a->p) : tg_ring_num_segments(a->p);
        if (fa) { fail_at = total_allocs + fa; fail_run = 1; failed = 0; }
        printf("{\"h\":["); bool ok = a->k == K_LINE ? tg_line_nearest_segment(a->p, n.mode & 4 ? NULL : near_rect, near_seg, it_near, &n) : tg_ring_nearest_segment(a->p, n.mode & 4 ? NULL : near_rect, near_seg, it_near, &n);
        size_t nf = fa ? failed : 0; fail_at = 0;
        printf("],\"ok\":%d,\"nf\":%zu}", ok, nf); }
    else if (IS("frect")) { double mn[4] = {0}, mx[4] = {0}; int d = tg_geom_fullrect(G(S()), mn, mx); // integer coordinates, no transform
        printf("{\"d\":%d,\"fr\":[", d);
        for (int i = 0; i < d; i++) printf(i ? ",[%ld,%ld]" : "[%ld,%ld]", mn[i] == floor(mn[i]) && fabs(mn[i]) < 1e9 ? (long)mn[i] : NOTINT, mx[i] == floor(mx[i]) && fabs(mx[i]) < 1e9 ? (long)mx[i] : NOTINT);
        printf("]}"); }
    else if (IS("series")) { // accessors of a ring or line, in model units
        struct slot *a = S(); const struct tg_ring *r = a->p; const struct tg_line *l = a->p; bool ln = a->k == K_LINE;
        int np = ln ? tg_line_num_points(l) : tg_ring_num_points(r), ns = ln ? tg_line_num_segments(l) : tg_ring_num_segments(r);
        printf("{\"np\":%d,\"ns\":%d,\"pts\":", np, ns); ipts(ln ? tg_line_points(l) : tg_ring_points(r), np);
        printf(",\"pat\":["); for (int i = -1; i <= np; i++) { if (i >= 0) putchar(','); outpt(ln ? tg_line_point_at(l, i) : tg_ring_point_at(r, i)); }
        printf("],\"seg\":["); for (int i = -1; i <= ns; i++) { if (i >= 0) putchar(','); struct tg_segment s = ln ? tg_line_segment_at(l, i) : tg_ring_segment_at(r, i); putchar('['); outpt(s.a); putchar(','); outpt(s.b); putchar(']'); }
        printf("],\"rect\":"); outrect(ln ? tg_line_rect(l) : tg_ring_rect(r));
        printf(",\"cw\":%d", ln ? tg_line_clockwise(l) : tg_ring_clockwise(r));
        double area = ln ? 0 : tg_ring_area(r); double a2 = area*2/(xs*xs);
        printf(",\"cvx\":%d,\"big\":%ld,\"a2\":%ld,\"spread\":%d,\"nl\":%d,\"lv\":[", ln ? 0 : tg_ring_convex(r), (a2 == floor(a2) && a2 < 1e17) ? (long)a2 : NOTINT, (a2 == floor(a2) && a2 < 1e9) ? (long)a2 : NOTINT,
            ln ? tg_line_index_spread(l) : tg_ring_index_spread(r), ln ? tg_line_index_num_levels(l) : tg_ring_index_num_levels(r));
        int nl = ln ? tg_line_index_num_levels(l) : tg_ring_index_num_levels(r);
        for (int i = 0; i < nl; i++) { if (i) putchar(','); putchar('['); int nr = ln ? tg_line_index_level_num_rects(l, i) : tg_ring_index_level_num_rects(r, i);
            for (int j = 0; j < nr; j++) { if (j) putchar(','); outfix(ln ? tg_line_index_level_rect(l, i, j) : tg_ring_index_level_rect(r, i, j)); } putchar(']'); }
        // perimeter: reported as floor(perimeter*2^10) in model units
        double per = (ln ? tg_line_length(l) : tg_ring_perimeter(r))/xs;
        printf("],\"per\":%ld}", (long)floor(per*1024)); }
    else if (IS("poly?")) { struct slot *a = S(); const struct tg_poly *p = a->p;
        printf("{\"ext\":"); const struct tg_ring *e = tg_poly_exterior(p); ipts(tg_ring_points(e), tg_ring_num_points(e));
        printf(",\"nh\":%d,\"h\":[", tg_poly_num_holes(p)); for (int i = 0; i < tg_poly_num_holes(p); i++) { if (i) putchar(','); const struct tg_ring *h = tg_poly_hole_at(p, i); ipts(tg_ring_points(h), tg_ring_num_points(h)); }
        printf("],\"oob\":%d,\"rect\":", (tg_poly_hole_at(p, -1) != NULL)+(tg_poly_hole_at(p, tg_poly_num_holes(p)) != NULL)); outrect(tg_poly_rect(p)); printf(",\"cw\":%d}", tg_poly_clockwise(p)); }
    else if (IS("grect")) { printf("{\"rect\":"); outrect(tg_geom_rect(G(S()))); printf("}"); }
    else if (IS("gcenter")) { struct tg_point p = tg_geom_point(G(S())); // twice the point of a geometry; no transform
        printf("{\"c2\":[%ld,%ld]}", unx(p.x*2, 0), unx(p.y*2, 0)); }
    else if (IS("gpoint")) { struct tg_point p = tg_geom_point(G(S())); printf("{\"p\":["); outbits(p.x); putchar(','); outbits(p.y); printf("]}"); }
    else if (IS("long")) { // a line of many positions: lengths of its binary encodings as pairs (length div 10000, length mod 10000)
        int n = I(), d = I();
        struct tg_point *p = malloc(sizeof(struct tg_point)*n);
        if (!p) { printf("{\"no\":1}"); return; }
        for (int i = 0; i < n; i++) { p[i].x = i%1000; p[i].y = i/1000; }
        struct tg_line *l = tg_line_new_ix(p, n, TG_NONE); free(p);
        struct tg_geom *g = !l ? NULL : d == 2 ? tg_geom_new_linestring(l) : d == 3 ? tg_geom_new_linestring_z(l, NULL, 0) : tg_geom_new_linestring_zm(l, NULL, 0);
        tg_line_free(l);
        if (!g) { printf("{\"no\":1}"); return; }
        unsigned char b[64]; size_t r[5], k = 0;
        r[0] = tg_geom_wkb(g, NULL, 0); r[1] = tg_geom_wkb(g, b, sizeof b); r[2] = tg_geom_hex(g, NULL, 0); r[3] = tg_geom_geobin(g, NULL, 0); r[4] = tg_geom_memsize(g);
        printf("{\"no\":0,\"r\":[");
        for (; k < 5; k++) { size_t hi = r[k]/10000; printf(k ? ",[%zu,%zu]" : "[%zu,%zu]", hi > 2000000000 ? 2000000000 : hi, r[k]%10000); }
        printf("]}"); tg_geom_free(g); }
    else if (IS("type")) { const char *s = tg_geom_type_string(I()); printf("{\"s\":"); outbytes(s, strlen(s)); printf("}"); }
    else { fprintf(stderr, "driver: unknown command %s\n", c); fflush(stdout); exit(90); }
}

int main(int argc, char **argv) {
    (void)argv;
    tg_env_set_allocator(t_malloc, t_realloc, t_free);
    static char obuf[1<<16]; setvbuf(stdout, obuf, argc > 1 ? _IOLBF : _IOFBF, sizeof obuf);
    while (getline(&line, &linecap, stdin) > 0) {
        cur = line;
        if (!more()) continue;
        if (*cur == '!') { fflush(stdout); cur++; } // a command that may end the process
        run(); putchar('\n');
    }
    fflush(stdout);
    return 0;
}
// unused in some builds
double (*const drv_unused)(void) = NUM;
