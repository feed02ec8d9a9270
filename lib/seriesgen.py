"""Scenarios for measures, rectangles and index levels."""
import json
from searchgen import *


def small_steps(rng, n):
    p = [(rng.randint(-20, 20), rng.randint(-20, 20))]
    for _ in range(n-1):
        k = rng.random()
        d = (0, 0) if k < .1 else (rng.randint(-5, 5), 0) if k < .3 else (rng.randint(-5, 5), rng.randint(-5, 5))
        x, y = p[-1][0]+d[0], p[-1][1]+d[1]
        p.append((min(20, max(-20, x)), min(20, max(-20, y))))
    return p


def thicken(rng, r):
    "the same ring with repeated and collinear positions and another start"
    out = []
    r = rot(rng, r)
    for a, b in zip(r, r[1:]):
        out.append(a)
        while rng.random() < .15:
            out.append(a)
        d = gcd(abs(b[0]-a[0]), abs(b[1]-a[1]))
        if d > 1 and rng.random() < .3:
            out.append((a[0]+(b[0]-a[0])//d, a[1]+(b[1]-a[1])//d))
    out.append(out[0])
    if rng.random() < .3:
        out.insert(0, out[0])
    return out


def one_meas(rng):
    k = rng.random()
    simple = False
    if k < .6:
        N = rng.choice([3, 5, 9, 20, 30])
        r = ring_in(rng, N) if rng.random() < .7 or N < 20 else ring_big(rng, rng.choice([10, 30, 40]), 30)
        if rng.random() < .4:
            r = convex_ring(rng, N, rng.randint(3, 12)) or r
        p = thicken(rng, r)
        simple, ring = True, True
    elif k < .8:
        p, ring = small_steps(rng, rng.choice([3, 4, 6, 20, 32, 40])), True
    else:
        p, ring = small_steps(rng, rng.choice([2, 3, 4, 6, 20, 33])), False
    if ring and p[0] == p[-1] and rng.random() < .5 and len(p) > 3:
        p = p[:-1]
    if ring and rng.random() < .3:
        i = rng.randrange(len(p))
        p = (p[:-1] if p[0] == p[-1] else p)
        p = p[i:] + p[:i]
    return p, ring, simple, rng.choice(SRIX), xft(rng) if rng.random() < .4 else None, linmap(rng, p, 1 << 23) if rng.random() < .3 else (1, 0, 0, 1)


def measscen(t):
    p, ring, simple, ix, xf, lin = t
    lp = [list(x) for x in p]
    cmds = (["xf %d %d %d" % xf] if xf else []) + [f"{'ring' if ring else 'line'} 0 {ix} {Build.pts([lapply(lin, x) for x in p])}", "series 0", "freeall"] + (["xf 0 0 0"] if xf else [])
    k = 1 + bool(xf)
    det = lin[0]*lin[3]-lin[1]*lin[2]
    short = all((a[0]-b[0])**2 + (a[1]-b[1])**2 < 2000 for a, b in zip(p, p[1:] + p[:ring]))  # TLC's integers have 31 bits

    def ev(o):  # measures of the linear image, as those of what it is the image of; a length has none (-1)
        s = o[k]
        a2, r = divmod(s["big"], abs(det))
        return [dict(k="meas", p=lp, ring=ring, simple=simple, a2=a2 if r == 0 and a2 < 1 << 31 else 2000000000, cw=s["cw"] ^ (det < 0),
                     cvx=s["cvx"], per=s["per"] if lin == (1, 0, 0, 1) and short else -1)]
    return Scen(cmds, ev, f"measures of {lp}" + (f" under {lin}" if det != 1 else ""))


def one_level(rng):
    sp = rng.choice([0, 0, 2, 2, 3, 3, 4, 5, 7, 10, 16, 20, 64, 4096, 5000, 1])
    env = rng.choice([0, 0, 0, 2, 3, 5, 16, 20])
    eff = min(max(sp, 2), 4096) if sp else env or 16
    n = rng.choice([2, 3, 4, 5, 8, 9, 10, 16, 17, 27, 28, 31, 32, 33, 40, 81, 82, 256, 257, 300, 2*eff-1, 2*eff, 2*eff+1, eff*eff, eff*eff+1])
    n = max(2, min(n, 700))
    R = rng.choice([5, 100, 15000])
    p = [(rng.randint(-R, R), rng.randint(-R, R)) for _ in range(n)]
    ring = rng.random() < .6
    if rng.random() < .4:
        p[-1] = p[0]
    kind = rng.choice(["none", "natural", "natural", "ystripes", "default"])
    dflt = rng.choice(["natural", "natural", "ystripes", "none"]) if kind == "default" else "natural"
    return p, ring, kind, sp, env, dflt, eff, xfexp(rng) if rng.random() < .5 else 0


def levelscen(wide):
    def mk(t):
        p, ring, kind, sp, env, dflt, eff, e = t
        lp = [list(x) for x in p]
        cmds = [f"xf {e} 0 0", f"env spread {env or 16}", f"env ix {dflt}", f"{'ring' if ring else 'line'} 0 {kind}{':%d' % sp if sp else ''} {Build.pts(p)}",
                "env spread 16", "env ix natural", "series 0", "clone 1 0", "copy 2 0", "series 2", "freeall", "xf 0 0 0"]
        none = kind == "none" or (kind == "default" and dflt == "none")

        def ev(o):
            return [dict(k="level", p=lp, ring=ring, none=none, req=eff, spread=o[i]["spread"], lv=o[i]["lv"], wide=wide, far=not -100 < e < 100) for i in (6, 9)]
        return Scen(cmds, ev, f"levels of {'ring' if ring else 'line'} of {len(p)}, {kind}:{sp}, default {dflt}:{env}")
    return mk


# ---- bounding rectangles: leaf = dict(t, fam, kind, p: positions with all coordinates)
def one_tree(rng, depth=0, fam=None, R=None):
    fam = fam or rng.choice(["xy", "z", "m", "zm"])
    R = R or rng.choice([4, 100, 30000])
    k = rng.random()
    if k < .3 and depth < 3 or depth == 0 and k < .45:
        n = rng.choice([0, 1, 2, 3, 5]) if rng.random() < .93 else 70
        return dict(t=4, c=[one_tree(rng, depth+1 if n < 10 else 9, fam, R) for _ in range(n)])
    if k < .5:
        return dict(t=0, e=rng.randint(1, 7))
    mine = rng.choice(dict(xy=["xy"], z=["xy", "z"], m=["xy", "m"], zm=["xy", "z", "zm"])[fam])
    nd = dict(xy=2, z=3, m=3, zm=4)[mine]
    kind = rng.choice(["pt", "line", "poly", "mp", "ml", "mpoly"])
    off = [rng.randint(-R, R) if rng.random() < .5 else 0 for _ in range(4)]

    def pos(n):
        return [[rng.randint(-R, R)+off[i] for i in range(nd)] for _ in range(n)]

    def ring():
        p = pos(rng.choice([3, 4, 6, 40]))
        q = [list(p[0])]
        for i in range(2, nd):
            q[0][i] = rng.randint(-R, R)
        return p + q
    if kind == "pt": s = [[pos(1)]]
    elif kind == "mp": s = [[pos(rng.choice([1, 2, 5]))]]
    elif kind == "line": s = [[pos(rng.choice([2, 3, 50]))]]
    elif kind == "ml": s = [[pos(rng.choice([2, 3]))] for _ in range(rng.choice([1, 2, 4]))]
    else:
        def pg():
            e = ring()
            hs = [ring() for _ in range(rng.choice([0, 0, 1, 2]))]
            # holes lie within the exterior's rectangle (else the polygon is not one)
            x0, x1 = min(p[0] for p in e), max(p[0] for p in e)
            y0, y1 = min(p[1] for p in e), max(p[1] for p in e)
            for h in hs:
                for p in h:
                    p[0] = min(x1, max(x0, p[0]))
                    p[1] = min(y1, max(y0, p[1]))
            return [e] + hs
        s = [pg() for _ in range(1 if kind == "poly" else rng.choice([1, 2, 3]))]
    return dict(t=1, kind=kind, dim=mine, s=s)


def hexd(v):
    import struct
    return struct.pack(">d", float(v)).hex()


def buildtree(B, g, ixs=iter(lambda: "natural:2", 0)):
    if g["t"] == 0:
        s = B.slot()
        B.cmds.append(f"empty {s} {g['e']}")
        return s
    if g["t"] == 4:
        cs = [buildtree(B, c, ixs) for c in g["c"]]
        s = B.slot()
        B.cmds.append(f"gc {s} {len(cs)} " + " ".join(map(str, cs)))
        return s
    k, dim = g["kind"], g["dim"]
    xy = lambda ps: [p[:2] for p in ps]
    flat = [p for part in g["s"] for ps in part for p in ps]
    xc = [v for p in flat for v in p[2:]]
    if k == "pt":
        s = B.slot()
        p = flat[0]
        B.cmds.append("pt %d %d %d" % (s, *p) if dim == "xy" else "ext %d pt %s %d %d " % (s, dim, p[0], p[1]) + " ".join(map(hexd, p[2:])))
        return s
    if k == "mp":
        arg = B.pts(xy(flat))
    elif k == "line":
        arg = str(B.line(xy(flat), next(ixs)))
    elif k == "ml":
        arg = "%d " % len(g["s"]) + " ".join(str(B.line(xy(part[0]), next(ixs))) for part in g["s"])
    elif k == "poly":
        arg = str(B.poly([xy(r) for r in g["s"][0]], next(ixs)))
    else:
        arg = "%d " % len(g["s"]) + " ".join(str(B.poly([xy(r) for r in part], next(ixs))) for part in g["s"])
    s = B.slot()
    if dim == "xy":
        B.cmds.append({"line": "gline", "poly": "gpoly"}.get(k, k) + f" {s} {arg}")
    else:
        B.cmds.append(f"ext {s} {k} {dim} {arg} {len(xc)} " + " ".join(map(hexd, xc)))
    return s


def bare(g):
    if g["t"] == 4: return dict(t=4, c=[bare(c) for c in g["c"]])
    if g["t"] == 0: return dict(t=1, p=[])
    return dict(t=1, p=[p for part in g["s"] for ps in part for p in ps])


def treescen(g):
    B = Build()
    s = buildtree(B, g)
    k = len(B.cmds)
    c, h = B.slot(), B.slot()
    B.cmds += [f"grect {s}", f"frect {s}", f"gcenter {s}", f"copy {c} {s}", f"grect {c}", f"frect {c}", f"gcenter {c}"]
    B.done()
    e = bare(g)

    def ev(o):
        return [dict(k="rect", g=e, rect=o[i]["rect"], d=o[i+1]["d"], fr=o[i+1]["fr"], c2=o[i+2]["c2"]) for i in (k, k+4)]
    return Scen(B.cmds, ev, "rectangle of " + json.dumps(e)[:300])


def one_rops(rng):
    N = rng.choice([3, 10, 1000])
    R = lambda: rng.randint(-N, N)

    def rect():
        a, b, c, d = R(), R(), R(), R()
        return [min(a, b), min(c, d), max(a, b), max(c, d)]
    return [(rect(), rect()) for _ in range(20)]


def ropsscen(q):
    cmds = ["rects %d %d %d %d %d %d %d %d" % (*a, *b) for a, b in q]
    return Scen(cmds, lambda o: [dict(k="rops", a=a, b=b, o=x) for (a, b), x in zip(q, o)], "rectangle operations")


def seriescanaries():
    sq = [[0, 0], [3, 4], [-1, 7], [-4, 3]]   # sides of length 5, counterclockwise
    m = dict(k="meas", p=sq, ring=True, simple=True, a2=50, cw=0, cvx=1, per=20480)
    out = [dict(m, **{k: v}) for k, v in dict(a2=49, cw=1, cvx=0, per=20495).items()] + [dict(m, per=20470)]
    p = [[i, i % 3] for i in range(9)]
    lv = dict(k="level", p=p, ring=False, none=False, req=4, spread=4, wide=True, far=False, lv=[[[0, 0, 4*65536, 2*65536], [4*65536, 0, 8*65536, 2*65536]]])
    out += [dict(lv, spread=5), dict(lv, none=True), dict(lv, lv=[]), dict(lv, lv=[[lv["lv"][0][0]]]),
            dict(lv, lv=[[[0, 0, 4*65536-1, 2*65536], lv["lv"][0][1]]]), dict(lv, wide=False, lv=[[[0, 0, 3*65536, 2*65536], lv["lv"][0][1]]]),
            dict(lv, wide=False, lv=[[[0, 0, 5*65536, 2*65536], lv["lv"][0][1]]])]
    g = dict(t=4, c=[dict(t=1, p=[[1, 2, 3], [4, -5, 6]]), dict(t=1, p=[]), dict(t=1, p=[[7, 7]])])
    r = dict(k="rect", g=g, rect=[1, -5, 7, 7], d=3, fr=[[1, 7], [-5, 7], [3, 6]], c2=[8, 2])
    out += [dict(r, rect=[0, -5, 7, 7]), dict(r, d=2), dict(r, fr=[[1, 7], [-5, 7], [0, 6]]), dict(r, c2=[8, 3])]
    o = dict(ii=1, pi=1, ipr=1, ex=[0, 0, 5, 5], ep=[0, 0, 3, 3], pr=[2, 2, 2, 2], sr=[2, 2, 5, 5], c2=[3, 3])
    for k, v in o.items():
        w = 1-v if isinstance(v, int) else [v[0]+1] + v[1:]
        out.append(dict(k="rops", a=[0, 0, 3, 3], b=[2, 2, 5, 5], o=dict(o, **{k: w})))
    return out
