"""Geometries together with query points on, next to and level with their
vertices and edges."""
from relcheck import *
from geombase import cross, egcd
from math import gcd


def saw(rng, n, A):
    "a ring whose vertices are at few levels, with many edges crossing each of them"
    top, x = [], 0
    for i in range(n):
        top.append((x, A if i % 2 else rng.randint(2, A-1)))
        x += rng.choice([1, 1, 2])
    bot = [(x, 0), (0, 0)] if rng.random() < .5 else [(x, -rng.randint(0, 3)), (x//2, -rng.randint(0, 3)), (0, -rng.randint(0, 3))]
    r = top + bot
    r = r + [r[0]]
    return r if fastsimple(r) else None


def one_comb(rng):
    "a comb with level tops at even fractions of its height, and positions on each of those"
    d, k = 2*rng.randint(0, 120) + 1, rng.choice([1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 32])
    ys = [d*i for i in range(1, k)]*rng.choice([1, 1, 2]) + [d*k]
    rng.shuffle(ys)
    ys = ys[:40]
    if d*k not in ys: ys.append(d*k)
    y0, r, q = -rng.choice([0, 0, 1, d]), [], []
    for i, y in enumerate(ys):
        w = rng.randint(1, 2)
        r += [(4*i, 0), (4*i, y), (4*i+w, y), (4*i+w, 0)]
        q += [(4*i+rng.randint(0, 2), y), (4*i-1, y), (4*i+w, y-rng.randint(0, 1))]
    r += [(4*len(ys), y0), (0, y0)] if y0 else [(4*len(ys), 0)] if rng.random() < .5 else []
    r = list(dict.fromkeys(r))
    flip = rng.random() < .3
    if flip: r, q = [(x, -y) for x, y in r], [(x, -y) for x, y in q]
    return G([rot(rng, r+r[:1])]), q, [], rng.choice(["ystripes", "ystripes", "ystripes", "natural", "none"]), (), (), None


def anygeom(rng):
    k = rng.random()
    N = rng.choice([5, 8, 11])
    if k < .25:
        return G(gpoly(rng, N))
    if k < .35:
        return L(sline(rng, N))
    if k < .5:
        ext, holes, _, _ = blocks_poly(rng)
        return G([rot(rng, ext)] + [rot(rng, h) for h in holes.values()])
    if k < .62:
        return collection(rng, N)
    if k < .75:
        r = ring_big(rng, rng.choice([12, 31, 32, 33, 40, 64, 70]), rng.choice([20, 40, 90]))
        return G([rot(rng, r)]) if rng.random() < .8 else L(r[:-1])
    if k < .95:
        r = None
        while r is None:
            r = saw(rng, rng.choice([3, 6, 14, 30, 34]), rng.choice([3, 4, 6]))
        if rng.random() < .3:
            r = [(y, x) for x, y in r]
        return G([rot(rng, r)])
    return leaf(rng, N, "P")


def around(rng, g, n):
    v = list(dict.fromkeys(verts(g)))
    if not v:
        return [(rng.randint(-2, 2), rng.randint(-2, 2)) for _ in range(3)]
    xs, ys = [p[0] for p in v], [p[1] for p in v]
    x0, x1, y0, y1 = min(xs)-1, max(xs)+1, min(ys)-1, max(ys)+1
    out = []
    edges = [(r[i], r[i+1]) for r in rings_of(g) for i in range(len(r)-1)]
    while len(out) < n:
        k = rng.random()
        if k < .2:
            p = rng.choice(v)
        elif k < .35 and edges:  # an integral point on an edge
            a, b = rng.choice(edges)
            d = gcd(abs(b[0]-a[0]), abs(b[1]-a[1]))
            if not d:
                continue
            t = rng.randint(0, d)
            p = (a[0]+(b[0]-a[0])//d*t, a[1]+(b[1]-a[1])//d*t)
        elif k < .6:  # level with a vertex
            p = (rng.randint(x0, x1), rng.choice(ys))
        elif k < .7:
            p = (rng.choice(xs), rng.randint(y0, y1))
        elif k < .8:
            q = rng.choice(v)
            p = (q[0]+rng.randint(-1, 1), q[1]+rng.randint(-1, 1))
        else:
            p = (rng.randint(x0, x1), rng.randint(y0, y1))
        out.append(p)
    return out


def one_loc(rng, npts):
    g = anygeom(rng)
    q = around(rng, g, npts)
    v = verts(g) or [(0, 0)]
    boxes = []
    for _ in range(3):
        a, b = rng.choice(q), rng.choice(q)
        k = rng.random()
        if k < .4:
            b = (a[0]+rng.randint(0, 3), a[1]+rng.randint(0, 3))
        boxes.append((min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1])))
    pre, post = (), ()
    if rng.random() < .3:
        pre = ("xf %d %d %d" % xft(rng),)
        post = ("xf 0 0 0",)
    return g, q, boxes, rng.choice(IXS), pre, post, linmap(rng, v+q) if rng.random() < .35 else None


def one_sliver(rng):
    "triangles as thin as triangles can be for their size, and positions as close to a long side as they can be"
    while True:
        N = rng.choice([3, 8, 20, 60])
        b = (rng.randint(1, N), rng.randint(1, N))
        g, x, y = egcd(*b)
        if g != 1: continue
        u = [(-y, x), (b[0]-y, b[1]+x), (b[0]+y, b[1]-x), (y, -x)]     # these have a cross product of one with b
        u = [p for p in u if 0 <= p[0] <= b[0] and 0 <= p[1] <= b[1]]
        c = rng.choice(u) if rng.random() < .5 and u else (rng.randint(0, b[0]), rng.randint(0, b[1]))
        if cross(*b, *c): break
    q = u + [(p[0]+i, p[1]+j) for p in u+[(0, 0), b, c] for i in (0, 1, -1) for j in (0, 1, -1) if rng.random() < .3 or i == j == 0]
    q = [p for p in dict.fromkeys(q) if 0 <= p[0] <= b[0] and 0 <= p[1] <= b[1]]
    x, y = rng.randint(-9, 9), rng.randint(-9, 9)
    t, q = [[(p[0]+x, p[1]+y) for p in l] for l in ([(0, 0), b, c], q)]
    return G([rot(rng, t + [t[0]])]), q, [], rng.choice(IXS), (), (), linmap(rng, t+q, unit=True)


def locscen(g, q, boxes, ix, pre, post, lin=None):
    B = Build()
    B.cmds += pre
    f = (lambda p: lapply(lin, p)) if lin else (lambda p: p)
    s = B.geom(tmap(g, f), ix)
    k = len(B.cmds)
    B.cmds.append(f"loc {s} {B.pts([f(p) for p in q])}")
    if lin: boxes = []      # boxes are not boxes any more
    B.cmds += [f"irect {s} %d %d %d %d" % b for b in boxes]
    B.done()
    B.cmds += post
    e = strip(g)
    return Scen(B.cmds, lambda o: [dict(k="loc", g=e, q=[list(p) for p in q], r=o[k]["r"]),
                                   dict(k="box", g=e, b=[list(b) for b in boxes], r=[x["r"] for x in o[k+1:k+1+len(boxes)]])],
                f"{wkt(g)} index {ix}" + (f" under {lin}" if lin else ""))


def loccanaries():
    out = []
    g = {"t": 3, "r": [SQ, IN]}
    q = [[0, 0], [1, 1], [2, 2], [3, 2], [9, 9], [4, 0]]
    t = [1, 1, 1, 0, 1, 0, 1, 1]
    i = [1, 1, 1, 1, 0, 1, 1, 0]
    r = [t, i, t, t, [0]*8, t]
    for a in range(len(q)):
        for c in range(8):
            x = [list(y) for y in r]
            x[a][c] ^= 1
            out.append(dict(k="loc", g=g, q=q, r=x))
    bx = [[0, 0, 1, 1], [9, 0, 9, 9], [3, 2, 3, 2], [-2, 4, 0, 4]]
    br = [1, 0, 1, 1]
    for a in range(len(bx)):
        x = list(br)
        x[a] ^= 1
        out.append(dict(k="box", g=g, b=bx, r=x))
    return out
