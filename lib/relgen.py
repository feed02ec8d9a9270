"""Scenario generators for relations: pairs of geometries as plain data, and the
driver commands that build them."""
from geomgen import *


def E(**k):
    d = dict(points=[], lines=[], polys=[])
    d.update(k)
    return d


def simple_line(l):
    S = segs_line(l)
    n = len(S)
    for i in range(n):
        for j in range(i+1, n):
            ps, qs = params(S[i], S[j]), params(S[j], S[i])
            if len(set(ps)) > 1 or len(set(qs)) > 1:
                return False
            if j == i+1:
                if len(ps) == 1 and ps[0] != 1:
                    return False
                if i == 0 and j == n-1 and l[0] == l[-1]:
                    return False
            elif i == 0 and j == n-1 and l[0] == l[-1]:
                pass
            elif ps:
                return False
    return True


def sline(rng, N):
    while True:
        l = gline(rng, N)
        if simple_line(l):
            return l


# ---- plain data geometries, as the specification reads them
def P(p): return {"t": 1, "p": list(p)}
def L(l): return {"t": 2, "l": [list(p) for p in l]}
def G(rings): return {"t": 3, "r": [[list(p) for p in r] for r in rings]}
def C(c, kind="gc"): return {"t": 4, "c": c, "k": kind}
EMPTY = {"t": 0}


def verts(g):
    if g["t"] == 1: return [tuple(g["p"])]
    if g["t"] == 2: return [tuple(p) for p in g["l"]]
    if g["t"] == 3: return [tuple(p) for r in g["r"] for p in r]
    if g["t"] == 4: return [p for c in g["c"] for p in verts(c)]
    return []


def tmap(g, f):
    if g["t"] == 1: return P(f(g["p"]))
    if g["t"] == 2: return L([f(p) for p in g["l"]])
    if g["t"] == 3: return G([[f(p) for p in r] for r in g["r"]])
    if g["t"] == 4: return dict(t=4, c=[tmap(c, f) for c in g["c"]], k=g.get("k", "gc"))
    return g


def rings_of(g):
    if g["t"] == 3: return [[tuple(p) for p in r] for r in g["r"]]
    if g["t"] == 2 and len(g["l"]) > 2: return [[tuple(p) for p in g["l"]]]
    if g["t"] == 4: return [r for c in g["c"] for r in rings_of(c)]
    return []


def leaf(rng, N, kind, other=None):
    if kind == "P":
        if other and rng.random() < .6 and verts(other):
            v = verts(other)
            p = rng.choice(v)
            if rng.random() < .4:  # middle of two vertices when integral
                q = rng.choice(v)
                if (p[0]+q[0]) % 2 == 0 and (p[1]+q[1]) % 2 == 0:
                    p = ((p[0]+q[0])//2, (p[1]+q[1])//2)
            return P(p)
        return P((rng.randint(0, N), rng.randint(0, N)))
    if kind == "L":
        if other and rng.random() < .5:
            rr = [r for r in rings_of(other) if len(r) > 2]
            if rr:
                l = frag_line(rng, rr, N)
                if simple_line(l):
                    return L(l)
        return L(sline(rng, N))
    if other and other["t"] == 3 and rng.random() < .25:
        rr = [[tuple(p) for p in r] for r in other["r"]]
        if rng.random() < .4:
            return G([rot(rng, r) for r in rr])
        return G([rot(rng, rng.choice(rr))])
    return G(gpoly(rng, N))


def pair(rng, N, kinds):
    k = rng.choice(kinds)
    a = leaf(rng, N, k[0] if k[0] != "P" else "P")
    if k[0] == "P":
        b = leaf(rng, N, k[1])
        a = leaf(rng, N, "P", b)
    else:
        b = leaf(rng, N, k[1], a)
    return a, b


class Build:
    """Emits the commands that build geometries into slots."""
    def __init__(self):
        self.cmds, self.n, self.casts = [], 0, []

    def cast(self, b, kind="g"):
        "the object in slot b seen as another kind, without a reference of its own"
        s = self.slot()
        self.cmds.append(f"as {s} {b} {kind}")
        self.casts.append(s)
        return s

    def done(self):
        self.cmds += [f"forget {s}" for s in self.casts] + ["freeall"]
        self.casts = []

    def slot(self):
        self.n += 1
        return self.n - 1

    @staticmethod
    def pts(ps):
        return "%d " % len(ps) + " ".join("%d %d" % tuple(p) for p in ps)

    def line(self, l, ix="none"):
        s = self.slot()
        self.cmds.append(f"line {s} {ix} {self.pts(l)}")
        return s

    def poly(self, rings, ix="none"):
        rs = []
        for r in rings:
            s = self.slot()
            self.cmds.append(f"ring {s} {ix} {self.pts(r)}")
            rs.append(s)
        s = self.slot()
        self.cmds.append(f"poly {s} {rs[0]} {len(rs)-1} " + " ".join(map(str, rs[1:])))
        return s

    def geom(self, g, ix="none"):
        t = g["t"]
        up = ix.endswith("!")  # rings, lines and polygons used as geometries directly
        if up and t == 2:
            return self.cast(self.line(g["l"], ix[:-1]))
        if up and t == 3 and len(g["r"]) > 1:
            return self.cast(self.poly(g["r"], ix[:-1]))
        if up and t == 3:
            s = self.slot()
            self.cmds.append(f"ring {s} {ix[:-1]} {self.pts(g['r'][0])}")
            return self.cast(s)
        if t == 1:
            s = self.slot()
            self.cmds.append("pt %d %d %d" % (s, *g["p"]))
            return s
        if t == 2:
            b = self.line(g["l"], ix)
            s = self.slot()
            self.cmds.append(f"gline {s} {b}")
            return s
        if t == 3:
            b = self.poly(g["r"], ix)
            s = self.slot()
            self.cmds.append(f"gpoly {s} {b}")
            return s
        if t == 0:
            s = self.slot()
            self.cmds.append(f"empty {s} {g.get('e', 7)}")
            return s
        k = g.get("k", "gc")
        if k == "mp":
            s = self.slot()
            self.cmds.append(f"mp {s} " + self.pts([c["p"] for c in g["c"]]))
            return s
        if k == "ml":
            cs = [self.line(c["l"], ix.rstrip("!")) for c in g["c"]]
        elif k == "mpoly":
            cs = [self.poly(c["r"], ix.rstrip("!")) for c in g["c"]]
        else:
            cs = [self.geom(c, ix) for c in g["c"]]
        s = self.slot()
        self.cmds.append(f"{k} {s} {len(cs)} " + " ".join(map(str, cs)))
        return s


def strip(g):
    "the geometry without the hints that the specification does not read"
    if g["t"] == 4: return {"t": 4, "c": [strip(c) for c in g["c"]]}
    if g["t"] == 0: return {"t": 0}
    return g


IXS = ["none", "natural", "ystripes", "default", "natural:2", "natural:3", "ystripes:2", "natural:4",
       "none!", "default!", "natural:2!", "ystripes!"]


def wkt(g):
    f = lambda ps: "(" + ",".join("%d %d" % tuple(p) for p in ps) + ")"
    if g["t"] == 0: return "EMPTY"
    if g["t"] == 1: return "POINT" + f([g["p"]])
    if g["t"] == 2: return "LINESTRING" + f(g["l"])
    if g["t"] == 3: return "POLYGON(" + ",".join(map(f, g["r"])) + ")"
    return "GEOMETRYCOLLECTION(" + ",".join(wkt(c) for c in g["c"]) + ")"
