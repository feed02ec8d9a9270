"""Several representations of one pair of geometries."""
from locgen import *
import json, struct


def split(rng, pts):
    "the same path with some edges cut at their middle, where that is integral"
    out = []
    for a, b in zip(pts, pts[1:]):
        out.append(a)
        if rng.random() < .4 and (a[0]+b[0]) % 2 == 0 and (a[1]+b[1]) % 2 == 0 and a != b:
            out.append(((a[0]+b[0])//2, (a[1]+b[1])//2))
    return out + [pts[-1]]


def vary(rng, g):
    "another description of the same point set"
    if g["t"] == 2:
        l = [tuple(p) for p in g["l"]]
        if rng.random() < .5: l = l[::-1]
        if rng.random() < .5: l = split(rng, l)
        return L(l)
    if g["t"] == 3:
        rs = [[tuple(p) for p in r] for r in g["r"]]
        if rng.random() < .6: rs = [split(rng, r) for r in rs]
        rs = [rot(rng, r) for r in rs]
        h = rs[1:]
        rng.shuffle(h)
        return G(rs[:1] + h)
    if g["t"] == 4:
        return dict(t=4, c=[vary(rng, c) for c in g["c"]], k=g["k"])
    return g


def gj(g):
    f = lambda ps: [list(p) for p in ps]
    if g["t"] == 0: return {"type": "GeometryCollection", "geometries": []}
    if g["t"] == 1: return {"type": "Point", "coordinates": list(g["p"])}
    if g["t"] == 2: return {"type": "LineString", "coordinates": f(g["l"])}
    if g["t"] == 3: return {"type": "Polygon", "coordinates": [f(r) for r in g["r"]]}
    k = g.get("k", "gc")
    if k == "gc" or not g["c"]: return {"type": "GeometryCollection", "geometries": [gj(c) for c in g["c"]]}
    return {"type": {"mp": "MultiPoint", "ml": "MultiLineString", "mpoly": "MultiPolygon"}[k], "coordinates": [gj(c)["coordinates"] for c in g["c"]]}


def wktk(g):
    f = lambda ps: "(" + ",".join("%d %d" % tuple(p) for p in ps) + ")"
    if g["t"] == 0: return "POINT EMPTY"
    if g["t"] == 4 and g.get("k") in ("mp", "ml", "mpoly"):
        n = {"mp": "MULTIPOINT", "ml": "MULTILINESTRING", "mpoly": "MULTIPOLYGON"}[g["k"]]
        return n + "(" + ",".join(wktk(c).split("(", 1)[1].join(["(", ""]) for c in g["c"]) + ")"
    if g["t"] == 4: return "GEOMETRYCOLLECTION(" + ",".join(map(wktk, g["c"])) + ")" if g["c"] else "GEOMETRYCOLLECTION EMPTY"
    return wkt(g)


def wkb(g):
    pts = lambda ps: struct.pack("<I", len(ps)) + b"".join(struct.pack("<dd", *p) for p in ps)
    h = lambda t: b"\x01" + struct.pack("<I", t)
    if g["t"] == 0: return h(7) + struct.pack("<I", 0)
    if g["t"] == 1: return h(1) + struct.pack("<dd", *g["p"])
    if g["t"] == 2: return h(2) + pts(g["l"])
    if g["t"] == 3: return h(3) + struct.pack("<I", len(g["r"])) + b"".join(map(pts, g["r"]))
    return h({"mp": 4, "ml": 5, "mpoly": 6, "gc": 7}[g.get("k", "gc")]) + struct.pack("<I", len(g["c"])) + b"".join(map(wkb, g["c"]))


def single(rng, g):
    k = {1: "mp", 2: "ml", 3: "mpoly"}.get(g["t"], "gc")
    return C([g], rng.choice([k, "gc"]))


def build(rng, B, g):
    "build g in some way; returns its slot"
    k = rng.random()
    ix = rng.choice(IXS)
    pix = ix.rstrip("!")
    if k < .2:
        g = single(rng, g)
    k = rng.random()
    s = B.slot()
    if k < .35:
        s = B.geom(g, ix)
    elif k < .45:
        B.cmds.append(f"parse {s} wkt {pix} {wktk(g).encode().hex()}")
    elif k < .55:
        B.cmds.append(f"parse {s} geojson {pix} {json.dumps(gj(g)).encode().hex()}")
    elif k < .65:
        f = {"type": "Feature", "geometry": gj(g), "properties": {"a": [1, {"type": "Point"}]}}
        if rng.random() < .4:
            f = {"type": "FeatureCollection", "features": [f]}
        B.cmds.append(f"parse {s} geojson {pix} {json.dumps(f).encode().hex()}")
    elif k < .72:
        B.cmds.append(f"parse {s} wkb {pix} {wkb(g).hex()}")
    elif k < .78:
        B.cmds.append(f"parse {s} hex {pix} {wkb(g).hex().encode().hex()}")
    elif k < .9:
        t = B.geom(g, ix)
        B.cmds.append(f"via {s} {t} {rng.choice(['geobin', 'wkb', 'hex', 'wkt', 'geojson'])} {pix}")
    else:
        t = B.geom(g, ix)
        B.cmds.append(f"{rng.choice(['clone', 'copy'])} {s} {t}")
    return s


TR = [lambda p: (p[0], p[1]), lambda p: (p[1], p[0]), lambda p: (-p[0], p[1]), lambda p: (p[0], -p[1]), lambda p: (-p[1], p[0]),
      lambda p: (p[0]+p[1], p[1]), lambda p: (p[0], p[1]-p[0])]


def one_repr(rng, k):
    x = rng.random()
    if x < .5:
        a, b = one_leafpair(rng, (5, 8, 11))[:2]
    elif x < .65:
        a, b = one_holepair(rng)[:2]
    elif x < .8:
        a, b = one_nestpair(rng)[:2]
    elif x < .92:
        a, b = one_collpair(rng)[:2]
    else:
        a, b = one_bigpair(rng)[:2]
    B = Build()
    at = []
    for i in range(k):
        f = rng.choice(TR) if rng.random() < .6 else TR[0]
        if rng.random() < .25:
            f = lambda p, m=linmap(rng, verts(a)+verts(b)): lapply(m, p)
        xf = rng.random() < .3
        if xf:
            B.cmds.append("xf %d %d %d" % xft(rng))
        ga, gb = tmap(a, f), tmap(b, f)
        if rng.random() < .8:
            ga, gb = vary(rng, ga), vary(rng, gb)
        if xf:
            sa, sb = B.geom(ga, rng.choice(IXS)), B.geom(gb, rng.choice(IXS))
        else:
            sa, sb = build(rng, B, ga), build(rng, B, gb)
        at.append(len(B.cmds))
        B.cmds.append(f"rel {sa} {sb}")
        if xf:
            B.cmds.append("xf 0 0 0")
    B.done()
    return a, b, B.cmds, at


def reprscen(t):
    a, b, cmds, at = t
    ea, eb = strip(a), strip(b)
    return Scen(cmds, lambda o: [dict(k="rel", a=ea, b=eb, rs=[o[i]["r"] for i in at])], f"representations of {wkt(a)} / {wkt(b)}")


# ---- index options over large inputs
def star_big(rng, n, R):
    import math
    while True:
        mode = rng.random()
        out = []
        for i in range(n):
            t = 2*math.pi*(i+rng.random()*.8)/n
            r = R*(.99 if mode < .3 else rng.uniform(.3, 1) if mode < .6 else .6+.4*math.sin(9*t))
            out.append((round(r*math.cos(t)), round(r*math.sin(t))))
        if all(cross(*out[i], *out[(i+1) % n]) > 0 for i in range(n)):
            return out + [out[0]]


OPTS = ["none", "natural", "ystripes", "default", "natural:2", "natural:3", "natural:7", "ystripes:2", "ystripes:5", "natural:64", "natural:4096"]


def one_index(rng):
    n = rng.choice([20, 32, 33, 64, 100, 257, 600])
    R = rng.choice([2000, 9000])
    r = star_big(rng, n, R)
    line = rng.random() < .25
    holes = []
    if rng.random() < .5:
        h = star_big(rng, rng.choice([3, 40, 100]), R)
        holes = [[(x//5, y//5) for x, y in h]]
        if not all(cross(*holes[0][i], *holes[0][i+1]) > 0 for i in range(len(h)-1)):
            holes = []
    a = L(r[:-1]) if line else G([rot(rng, r)] + holes)
    k = rng.random()
    if k < .3:
        b = G([rot(rng, star_big(rng, rng.choice([5, 40, 200]), R))])
    elif k < .5:
        b = G([[(x//2, y//2) for x, y in r]])
    elif k < .6:
        b = G([rot(rng, r)])
    elif k < .8:
        b = L([(rng.randint(-R, R), rng.randint(-R, R)) for _ in range(rng.choice([2, 5, 40]))])
    else:
        i = rng.randrange(len(r)-3)
        b = L(r[i:i+rng.randint(2, 40)])
    q = around(rng, a, 40)
    boxes = []
    for _ in range(3):
        p, d = rng.choice(q), rng.randint(0, R//2)
        boxes.append((p[0], p[1], p[0]+d, p[1]+rng.randint(0, d)))
    near = [(*rng.choice(q), rng.randrange(3), 0, 0, 0) for _ in range(1)]
    cfg = [(o, rng.choice(OPTS), rng.choice([2, 4, 16, 16, 100]), rng.choice(["none", "natural", "ystripes"])) for o in OPTS]
    return a, b, q, boxes, near, cfg


def indexscen(t):
    a, b, q, boxes, near, cfg = t
    cmds, at = [], []
    la = a["l"] if a["t"] == 2 else a["r"][0]
    lb = b["l"] if b["t"] == 2 else b["r"][0]
    for o, o2, sp, df in cfg:
        cmds += [f"env spread {sp}", f"env ix {df}"]
        B = Build()
        sa, sb = B.geom(a, o), B.geom(b, o2)
        cmds += B.cmds
        ka, kb = ("line", "ring")[a["t"] == 3], ("line", "ring")[b["t"] == 3]
        cmds += [f"{ka} 90 {o} {Build.pts(la)}", f"{kb} 91 {o2} {Build.pts(lb)}"]
        sc = {("ring", "ring"): "rsearch 90 91", ("line", "line"): "lsearch 90 91", ("ring", "line"): "rlsearch 90 91", ("line", "ring"): "rlsearch 91 90"}[(ka, kb)]
        k = len(cmds)
        at.append(k)
        cmds += [f"rel {sa} {sb}", f"loc {sa} {Build.pts(q)}"] + [f"irect {sa} %d %d %d %d" % x for x in boxes]
        cmds += [sc + " 0", "series 90"] + ["nearest 90 %d %d %d %d %d %d" % x for x in near] + ["freeall"]
    cmds += ["env spread 16", "env ix natural"]
    nb = len(boxes)

    def ev(o):
        rows = [o[k]["r"] for k in at]
        s = [[o[k+2+nb+1][f] for f in ("np", "ns", "pts", "pat", "seg", "rect", "cw", "cvx", "a2", "per")] for k in at]
        return [dict(k="same", what="relations", rows=rows), dict(k="same", what="points", rows=[o[k+1]["r"] for k in at]),
                dict(k="same", what="boxes", rows=[[o[k+2+i]["r"] for i in range(nb)] for k in at]),
                dict(k="sets", what="search", rows=[o[k+2+nb]["h"] for k in at]),
                dict(k="same", what="measures", rows=s),
                dict(k="same", what="distances", rows=[[h[1] for h in o[k+2+nb+2]["h"]] for k in at]),
                dict(k="sets", what="nearest", rows=[o[k+2+nb+2]["h"] for k in at])]
    return Scen(cmds, ev, f"index options over {len(la)} and {len(lb)} positions: {json.dumps([la[:6], lb[:6]])}")


def reprcanaries():
    from relcheck import TRUTH
    out = []
    for a, b, r1, r2 in TRUTH[:3]:
        for c in range(16):
            r = r1 + r2
            r[c] ^= 1
            out.append(dict(k="rel", a=a, b=b, rs=[r1+r2, r]))
    out += [dict(k="same", rows=[[1, 2], [1, 2], [1, 3]]), dict(k="sets", rows=[[1, 2], [2, 1], [1]]), dict(k="sets", rows=[[1, 2], [2, 1, 2]])]
    return out
