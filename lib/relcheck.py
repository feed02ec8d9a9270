"""The checks of geometric relations (G02, G03, G04) and of collections (G06)."""
from relgen import *
from geombase import linmap, lapply, xft
from vlib import Scen, pgen
import math, random

COLS = dict(equals=1, intersects=2, disjoint=3, contains=4, within=5, covers=6, coveredby=7, touches=8)
ALL = list(range(1, 9))
SQ = [[0, 0], [8, 0], [8, 8], [0, 8], [0, 0]]
IN = [[2, 2], [4, 2], [4, 4], [2, 2]]
# (a, b, columns of (a,b), columns of (b,a)) whose answers are beyond doubt; each
# is corrupted in one column to make an event that must be rejected
TRUTH = [
    ({"t": 3, "r": [SQ]}, {"t": 3, "r": [IN]}, [0, 1, 0, 1, 0, 1, 0, 0], [0, 1, 0, 0, 1, 0, 1, 0]),
    ({"t": 3, "r": [SQ]}, {"t": 2, "l": [[8, 2], [8, 5]]}, [0, 1, 0, 0, 0, 1, 0, 1], [0, 1, 0, 0, 0, 0, 1, 1]),
    ({"t": 3, "r": [SQ]}, {"t": 1, "p": [3, 3]}, [0, 1, 0, 1, 0, 1, 0, 0], [0, 1, 0, 0, 1, 0, 1, 0]),
    ({"t": 2, "l": [[0, 0], [4, 4]]}, {"t": 2, "l": [[0, 4], [4, 0]]}, [0, 1, 0, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0, 0, 0]),
    ({"t": 3, "r": [SQ]}, {"t": 3, "r": [[[9, 9], [12, 9], [9, 12], [9, 9]]]}, [0, 0, 1, 0, 0, 0, 0, 0], [0, 0, 1, 0, 0, 0, 0, 0]),
]


def canaries(cols):
    out = []
    for a, b, r1, r2 in TRUTH:
        for c in cols:
            r = r1 + r2
            r[c-1] ^= 1
            out.append(dict(a=a, b=b, r=r, m=cols))
            r = r1 + r2
            r[7+c] ^= 1
            out.append(dict(a=a, b=b, r=r, m=cols))
    return out


def scen(a, b, cols, ixa="none", ixb="none", pre=(), post=(), lin=None):
    """lin: build the images of a and b under this linear map; it changes no relation"""
    B = Build()
    B.cmds += pre
    f = lambda g: tmap(g, lambda p: lapply(lin, p)) if lin else g
    sa = B.geom(f(a), ixa)
    sb = B.geom(f(b), ixb)
    k = len(B.cmds)
    B.cmds.append(f"rel {sa} {sb}")
    B.done()
    B.cmds += post
    ea, eb = strip(a), strip(b)

    def ev(o):
        return [dict(a=ea, b=eb, r=o[k]["r"], m=cols)]
    return Scen(B.cmds, ev, f"{wkt(a)} / {wkt(b)}" + (f" under {lin}" if lin else ""))


def one_leafpair(rng, grids):
    N = rng.choice(grids)
    a, b = pair(rng, N, ["PL", "PG", "LL", "LL", "LG", "LG", "LG", "GG", "GG", "GG", "PP"] if rng.random() < .9 else ["GG"])
    pre, post = (), ()
    if rng.random() < .3:
        pre = ("xf %d %d %d" % xft(rng),)
        post = ("xf 0 0 0",)
    return a, b, rng.choice(IXS), rng.choice(IXS), pre, post


def scens(tuples, cols):
    out = []
    for t in tuples:
        rng = random.Random(repr(t))
        a, b, ixa, ixb, pre, post = t
        out.append(scen(a, b, cols, ixa, ixb, pre, post, linmap(rng, verts(a)+verts(b)) if rng.random() < .3 else None))
    return out


def leafpairs(ctx, n, cols, grids=(5, 8, 11)):
    return scens(pgen(ctx.rng, one_leafpair, n, grids), cols)


def ring_big(rng, n, N):
    "a simple ring with about n vertices on a large grid"
    import math
    while True:
        cx = cy = N // 2
        pts = []
        angs = sorted(rng.uniform(0, 2*math.pi) for _ in range(n))
        R = N // 2
        mode = rng.random()
        for t in angs:
            r = R if mode < .3 else rng.uniform(.3, 1)*R if mode < .7 else R*(.6+.4*math.sin(7*t))
            pts.append((int(cx + r*math.cos(t)), int(cy + r*math.sin(t))))
        q = []
        for p in pts:
            if not q or p != q[-1]:
                q.append(p)
        if len(q) > 3 and q[0] == q[-1]:
            q.pop()
        r = q + [q[0]]
        if len(set(q)) == len(q) and len(q) >= 3 and fastsimple(r):
            return r


def fastsimple(r):
    from geombase import cross
    n = len(r)-1
    S = [(r[i], r[i+1]) for i in range(n)]

    def o(a, b, c):
        v = (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
        return (v > 0) - (v < 0)

    def on(p, a, b):
        return o(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
    for i in range(n):
        a, b = S[i]
        for j in range(i+1, n):
            c, d = S[j]
            if max(a[0], b[0]) < min(c[0], d[0]) or max(c[0], d[0]) < min(a[0], b[0]) or \
               max(a[1], b[1]) < min(c[1], d[1]) or max(c[1], d[1]) < min(a[1], b[1]):
                continue
            if j == i+1:
                if on(d, a, b) or on(a, c, d): return False
            elif i == 0 and j == n-1:
                if on(c, a, b) or on(b, c, d): return False
            else:
                if o(a, b, c) != o(a, b, d) and o(c, d, a) != o(c, d, b): return False
                if on(c, a, b) or on(d, a, b) or on(a, c, d) or on(b, c, d): return False
    from geombase import area2
    return area2(r) != 0


def one_bigpair(rng):
    "a pair in which a ring or line is large enough to be indexed"
    if True:
        N = rng.choice([40, 80, 100])
        r = ring_big(rng, rng.choice([8, 20, 33, 40, 70]), N)
        rings = [r]
        a = G([rot(rng, r)]) if rng.random() < .7 else L([p for p in r[:-1]])
        k = rng.random()
        if k < .3:
            b = leaf(rng, N, "L", a)
        elif k < .6:
            b = G([rot(rng, ring_big(rng, rng.choice([5, 10, 34]), N))])
        elif k < .8:
            i = rng.randrange(len(r)-1)
            d = rng.choice([(0, 0), (1, 0), (0, 1), (-1, -1), (2, 1)])
            b = L([(r[i][0]+d[0], r[i][1]+d[1]), (r[i+1][0]+d[0], r[i+1][1]+d[1])])
        else:
            b = G([[(p[0]//2+N//4, p[1]//2+N//4) for p in r]])
            if not fastsimple([tuple(p) for p in b["r"][0]]):
                b = leaf(rng, N, "P", a)
        if rng.random() < .5:
            a, b = b, a
        return a, b, rng.choice(IXS), rng.choice(IXS), (), ()


def bigpairs(ctx, n, cols):
    return scens(pgen(ctx.rng, one_bigpair, n), cols)

# ---- polygons with several holes, and pairs in which one is a variation of the other
def hole_in(rng, x0, y0, w):
    "a ring inside of the square block (x0,y0)-(x0+w,y0+w)"
    for _ in range(50):
        f = rng.choice([convex_ring, star_ring, opt2])
        r = f(rng, w, rng.randint(3, 6))
        if r:
            return [(x+x0, y+y0) for x, y in r]
    return [(x0, y0), (x0+w, y0), (x0, y0+w), (x0, y0)]


def blocks_poly(rng):
    """a rectangle (possibly with its corners cut) with several blocks in it, each
    of which may hold a hole; returns (exterior, {block: hole}, geometry of blocks)"""
    w = rng.choice([3, 4, 6])
    g = rng.choice([1, 2])
    nx, ny = rng.choice([(2, 1), (2, 2), (3, 1), (3, 2)])
    W, H = nx*(w+g)+g, ny*(w+g)+g
    if rng.random() < .6:
        ext = [(0, 0), (W, 0), (W, H), (0, H), (0, 0)]
    else:  # bumpy: extra vertices outside of the block area
        ext = [(0, 0), (W//2, -rng.randint(0, 3)), (W, 0), (W+rng.randint(0, 3), H//2), (W, H), (0, H), (-rng.randint(0, 2), H//2), (0, 0)]
    blocks = [(g+i*(w+g), g+j*(w+g)) for i in range(nx) for j in range(ny)]
    holes = {b: hole_in(rng, b[0], b[1], w) for b in blocks if rng.random() < .75}
    return ext, holes, blocks, w


def one_holepair(rng):
    ext, holes, blocks, w = blocks_poly(rng)

    def mk(e, h):
        hs = [rot(rng, r) for r in h.values()]
        rng.shuffle(hs)
        return G([rot(rng, e)] + hs)
    a = mk(ext, holes)
    k = rng.random()
    xs = [p[0] for p in ext]
    ys = [p[1] for p in ext]
    if k < .5:  # a variation of a: some holes changed, dropped, added; maybe another exterior
        h2 = dict(holes)
        for b in blocks:
            x = rng.random()
            if x < .5:
                continue
            if x < .6:
                h2.pop(b, None)
            elif x < .7 or b not in h2:
                h2[b] = hole_in(rng, b[0], b[1], w)
            elif x < .85:  # the hull of the block: covers any hole in it
                h2[b] = [b, (b[0]+w, b[1]), (b[0]+w, b[1]+w), (b[0], b[1]+w), b]
            else:  # a part of the hole
                r = h2[b][:-1]
                i = rng.randrange(len(r))
                q = r[i:i+3] if i+3 <= len(r) else r[:3]
                q = q + [q[0]]
                if area2(q) != 0 and fastsimple(q) and len(r) > 3 and inside_ring(q, h2[b]):
                    h2[b] = q
        e2 = ext
        x = rng.random()
        if x < .2:
            e2 = [(p[0] + (p[0] > 0) - (p[0] < 0)*0, p[1]) for p in ext]
            if not fastsimple(e2): e2 = ext
        elif x < .35:
            W, H = max(xs), max(ys)
            e2 = [(0, 0), (W, 0), (W, H), (0, H), (0, 0)]
        b = mk(e2, h2)
    elif k < .8:  # a line through the holes
        pool = [p for h in holes.values() for p in h] + ext
        pts = [(rng.randint(min(xs), max(xs)), rng.randint(min(ys), max(ys))) if rng.random() < .5 else rng.choice(pool)
               for _ in range(rng.randint(2, 4))]
        q = [pts[0]]
        for p in pts[1:]:
            if p != q[-1]: q.append(p)
        if holes and rng.random() < .25:
            r = rng.choice(list(holes.values()))
            q = rot(rng, r)[:rng.randint(2, len(r))]
        b = L(q) if len(q) > 1 and simple_line(q) else L(sline(rng, max(ys)))
    elif k < .9:  # a polygon within one block: meets at most one hole
        bx, by = rng.choice(blocks)
        b = G([hole_in(rng, bx, by, w)])
        if (bx, by) in holes and rng.random() < .4:
            b = G([rot(rng, holes[(bx, by)])])
    else:
        x0 = rng.randint(-1, max(xs)//2)
        y0 = rng.randint(-1, max(ys)//2)
        b = G([hole_in(rng, x0, y0, max(3, min(max(xs), max(ys))//2))])
    if rng.random() < .5:
        a, b = b, a
    return a, b, rng.choice(IXS), rng.choice(IXS), (), ()


def hull(pts):
    pts = sorted(set(pts))

    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and cross(h[-1][0]-h[-2][0], h[-1][1]-h[-2][1], p[0]-h[-1][0], p[1]-h[-1][1]) <= 0:
                h.pop()
            h.append(p)
        return h
    lo, up = half(pts), half(pts[::-1])
    r = lo[:-1] + up[:-1]
    return r + [r[0]]


def one_nestpair(rng):
    "a geometry (polygons with holes among them) in a hole of a polygon, touching or crossing the hole's edge or not"
    N = rng.choice([5, 7, 9])
    b = leaf(rng, N, rng.choice("GGGLP"))
    if b["t"] == 3 and len(b["r"]) == 1 and rng.random() < .7:
        ext, holes, _, _ = blocks_poly(rng)
        b = G([ext] + list(holes.values()))
    v = verts(b)
    xs, ys = [p[0] for p in v], [p[1] for p in v]
    x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
    k = rng.random()
    h = None
    if k < .35 and b["t"] == 3:
        h = hull(v)
    elif k < .5 and b["t"] == 3:
        h = [tuple(p) for p in b["r"][0]]
    elif k < .75:  # a box around it, touching some of its sides
        d = [rng.choice([0, 0, 1, 2]) for _ in range(4)]
        h = [(x0-d[0], y0-d[1]), (x1+d[2], y0-d[1]), (x1+d[2], y1+d[3]), (x0-d[0], y1+d[3])]
    else:  # a diamond-like ring around or across it
        cx, cy = (x0+x1)//2, (y0+y1)//2
        R = (x1-x0+y1-y0)//2 + rng.randint(0, 2) + 1
        h = [(cx-R, cy), (cx, cy-R), (cx+R, cy), (cx, cy+R)]
    if h[0] != h[-1]:
        h = h + [h[0]]
    if len(h) < 4 or not fastsimple(h):
        h = [(x0-1, y0-1), (x1+1, y0-1), (x1+1, y1+1), (x0-1, y1+1), (x0-1, y0-1)]
    hx, hy = [p[0] for p in h], [p[1] for p in h]
    m = rng.randint(1, 3)
    ext = [(min(hx)-m, min(hy)-m), (max(hx)+m, min(hy)-m), (max(hx)+m, max(hy)+m), (min(hx)-m, max(hy)+m)]
    ext.append(ext[0])
    rings = [ext, rot(rng, h)]
    if rng.random() < .3:
        w = 3
        ox, oy = max(hx)+m, min(hy)-m
        ext = [ext[0], (ox+w+2, ext[0][1]), (ox+w+2, max(ext[2][1], oy+w+2)), (ext[0][0], max(ext[2][1], oy+w+2)), ext[0]]
        rings = [ext, rot(rng, h), hole_in(rng, ox+1, oy+1, w)]
        if rng.random() < .5:
            rings = [rings[0], rings[2], rings[1]]
    a = G([rot(rng, rings[0])] + rings[1:])
    if rng.random() < .5:
        a, b = b, a
    return a, b, rng.choice(IXS), rng.choice(IXS), (), ()


def nestpairs(ctx, n, cols):
    return scens(pgen(ctx.rng, one_nestpair, n), cols)


def inside_ring(q, r):
    A = dict(points=[], lines=[], polys=[[r]])
    Q = dict(points=[], lines=[], polys=[[q]])
    return not any(b != 'E' and a == 'E' for a, b in relate(A, Q))


def holepairs(ctx, n, cols):
    return scens(pgen(ctx.rng, one_holepair, n), cols)


def mixed(ctx, n, cols):
    "the pairs that decide the columns of one property"
    return (leafpairs(ctx, n*50//100, cols) + holepairs(ctx, n*16//100, cols) + nestpairs(ctx, n*14//100, cols) + collpairs(ctx, n*14//100, cols)
            + bigpairs(ctx, n*6//100, cols))



def collection(rng, N, depth=0, other=None):
    "a multi geometry, collection or nested collection with possible empties"
    k = rng.random()
    if k < .15:
        return C([leaf(rng, N, "P", other) for _ in range(rng.randint(1, 4))], "mp")
    if k < .3:
        return C([leaf(rng, N, "L", other) for _ in range(rng.randint(1, 3))], "ml")
    if k < .5:
        return C([leaf(rng, N, "G", other if other and other["t"] < 4 else None) for _ in range(rng.randint(1, 3))], "mpoly")
    ch = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4]) if rng.random() < .9 else rng.randint(5, 8)):
        x = rng.random()
        if x < .12:
            ch.append({"t": 0, "e": rng.randint(1, 7)})
        elif x < .3 and depth < 3:
            ch.append(collection(rng, N, depth+1, other))
        else:
            ch.append(leaf(rng, N, rng.choice("PLG"), other if other and other["t"] < 4 else None))
    return C(ch, "gc")


def sub(rng, g):
    "a collection of some members of g, so that covering happens"
    ls = []

    def walk(x):
        if x["t"] == 4:
            for c in x["c"]:
                walk(c)
        elif x["t"]:
            ls.append(x)
    walk(g)
    if not ls:
        return g
    pick = [rng.choice(ls) for _ in range(rng.randint(1, 3))]
    if rng.random() < .3:
        pick.append({"t": 0, "e": rng.randint(1, 7)})
    if rng.random() < .3:
        return rng.choice(pick[:1])
    return C(pick, "gc")


def one_collpair(rng):
    if True:
        N = rng.choice([4, 6, 9])
        a = collection(rng, N)
        x = rng.random()
        if x < .25:
            b = sub(rng, a)
        elif x < .5:
            b = collection(rng, N, 0, None)
        elif x < .6:
            b = {"t": 0, "e": rng.randint(1, 7)}
        else:
            ls = [c for c in a["c"] if 0 < c["t"] < 4]
            b = leaf(rng, N, rng.choice("PLG"), rng.choice(ls) if ls else None)
        if rng.random() < .5:
            a, b = b, a
        return a, b, rng.choice(IXS), rng.choice(IXS), (), ()


def collpairs(ctx, n, cols):
    return scens(pgen(ctx.rng, one_collpair, n), cols)
