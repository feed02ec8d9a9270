"""Scenarios for searches over segments and members."""
from locgen import *


def series(rng, n, N):
    "any sequence of positions: repeats, reversals, collinear runs"
    k = rng.random()
    if k < .3 and n > 4:
        r = ring_big(rng, n, max(N, 12))
        return r if rng.random() < .6 else r[:-1]
    p = [(rng.randint(0, N), rng.randint(0, N))]
    for _ in range(n-1):
        x = rng.random()
        if x < .05:
            p.append(p[-1])
        elif x < .15 and len(p) > 1:
            p.append(p[-2])
        elif x < .7:
            p.append((min(N, max(0, p[-1][0]+rng.randint(-2, 2))), min(N, max(0, p[-1][1]+rng.randint(-2, 2)))))
        else:
            p.append((rng.randint(0, N), rng.randint(0, N)))
    if rng.random() < .4 and len(p) > 2:
        p.append(p[0])
    return p


SIZES = [2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 32, 33, 40, 49]
SRIX = ["none", "natural", "ystripes", "default", "natural:2", "natural:2", "natural:3", "ystripes:2", "natural:5", "natural:16"]


def one_pairsearch(rng, big):
    N = rng.choice([6, 12, 30, 90])
    sizes = SIZES if not big else SIZES + [64, 65, 100, 128, 150]
    ra, rb = rng.random() < .5, rng.random() < .5
    a = series(rng, rng.choice(sizes), N)
    k = rng.random()
    if k < .15:
        b = list(a)
    elif k < .3:
        i = rng.randrange(len(a))
        b = (a[i:] + a[:i])[::-1]
        dx = rng.choice([0, 0, 1])
        b = [(x+dx, y) for x, y in b]
    else:
        b = series(rng, rng.choice(sizes), N)
    if len(b) < 2: rb = False; b = b + b
    if len(a) < 2: ra = False; a = a + a
    return a, b, ra, rb, rng.choice(SRIX), rng.choice(SRIX), rng.random(), rng.random() < .3 and xft(rng), linmap(rng, a+b) if rng.random() < .3 else (1, 0, 0, 1)


def back(m, p):
    "where a reported position comes from"
    d = m[0]*m[3]-m[1]*m[2]
    x, y = m[3]*p[0]-m[1]*p[1], m[0]*p[1]-m[2]*p[0]
    return [x//d, y//d] if x % d == 0 and y % d == 0 and max(abs(x//d), abs(y//d)) < 1 << 30 else [2000000000]*2


def pairscen(t):
    a, b, ra, rb, ixa, ixb, lim, xf, lin = t
    f = lambda ps: Build.pts([lapply(lin, p) for p in ps])
    cmds = ["xf %d %d %d" % xf] if xf else []
    k0 = len(cmds)
    cmds += [f"{'ring' if ra else 'line'} 0 {ixa} {f(a)}", f"{'ring' if rb else 'line'} 1 {ixb} {f(b)}"]
    c = {(1, 1): "rsearch", (0, 0): "lsearch", (1, 0): "rlsearch"}.get((ra, rb))
    swap = c is None
    x, y = ("1 0" if swap else "0 1").split()
    c = c or "rlsearch"
    lims = [0, 1, 2 + int(lim*12)]
    cmds += [f"{c} {x} {y} {m}" for m in lims]
    cmds += ["freeall"] + (["xf 0 0 0"] if xf else [])
    if swap:
        a, b, ra, rb = b, a, rb, ra
    la, lb = [list(p) for p in a], [list(p) for p in b]

    def ev(o):
        return [dict(k="pair", a=la, b=lb, ra=ra, rb=rb, lim=m, h=[x[:2]+[back(lin, p) for p in x[2:]] for x in o[k0+2+i]["h"]]) for i, m in enumerate(lims)]
    return Scen(cmds, ev, f"{c} {la} {lb} {ixa} {ixb}")


def one_segs(rng, n):
    N = rng.choice([2, 3, 6, 40])
    R = lambda: rng.randint(0, N)
    return [([R(), R(), R(), R()], [R(), R(), R(), R()]) for _ in range(n)], xft(rng), rng.random() if rng.random() < .6 else 0.0


def segsscen(t):
    q, xf, lin = t
    rng = random.Random(lin)
    cmds = ["xf %d %d %d" % xf]
    for a, b in q:
        v = (a[:2], a[2:], b[:2], b[2:])
        m = linmap(rng, v) if lin else (1, 0, 0, 1)
        cmds.append("segseg %d %d %d %d %d %d %d %d" % sum((lapply(m, p) for p in v), ()))
    cmds.append("xf 0 0 0")
    return Scen(cmds, lambda o: [dict(k="segs", q=q, r=[x["r"] for x in o[1:-1]])], f"segment pairs {q[:3]}...")


def allsegpairs():
    "every pair of segments on the 3x3 grid"
    P = [(x, y) for x in range(3) for y in range(3)]
    S = [list(a+b) for a in P for b in P]
    pairs = [(s, t) for s in S for t in S]
    return [segsscen((pairs[i:i+81], (0, 0, 0), 0.0)) for i in range(0, len(pairs), 81)]


def rect_of(g):
    v = verts(g)
    if not v:
        return []
    xs, ys = [p[0] for p in v], [p[1] for p in v]
    return [min(xs), min(ys), max(xs), max(ys)]


def one_coll(rng):
    k = rng.choice(["mp", "ml", "mpoly", "gc", "gc"])
    n = rng.choice([1, 2, 5, 20, 63, 64, 65, 70, 96, 97, 128, 200, 1100 if rng.random() < .3 else 300])
    N = rng.choice([6, 30, 90])

    def member():
        x, y, w, h = rng.randint(-N, N), rng.randint(-N, N), rng.randint(1, 4), rng.randint(0, 3)
        kk = k
        if kk == "gc":
            u = rng.random()
            if u < .15:
                return {"t": 0, "e": rng.randint(1, 7)}
            if u < .25:
                return C([P((x, y)), L([(x, y), (x+w, y+h)]), {"t": 0, "e": 1}][rng.randrange(2):])
            kk = rng.choice(["mp", "ml", "mpoly"])
        if kk == "mp":
            return P((x, y))
        if kk == "ml":
            return L([(x, y), (x+w, y+h)] + [(x+rng.randint(0, w), y-1)]*rng.randrange(2))
        return G([[(x, y), (x+w, y), (x, y+h+1), (x, y)]])
    c = [member() for _ in range(n)]
    qs = []
    for _ in range(10):
        x, y = rng.randint(-N-2, N+2), rng.randint(-N-2, N+2)
        w, h = rng.choice([(0, 0), (1, 1), (3, 0), (N, 2), (N, N), (3*N, 3*N)])
        r = rect_of(rng.choice(c))
        if r and rng.random() < .4:
            x, y = (r[2], r[3]) if rng.random() < .5 else (r[0]-w, r[1]-h)
        qs.append((x, y, x+w, y+h, rng.choice([0, 0, 0, 1, 2, 5])))
    return k, c, qs, rng.choice(IXS[:8]), xft(rng) if rng.random() < .4 else None


def collscen(t):
    k, c, qs, ix, xf = t
    B = Build()
    if xf: B.cmds.append("xf %d %d %d" % xf)
    s = B.geom(C(c, k), ix)
    n = len(B.cmds)
    B.cmds += [f"gsearch {s} %d %d %d %d %d" % q for q in qs]
    B.done()
    if xf: B.cmds.append("xf 0 0 0")
    rects = [rect_of(g) for g in c]

    def ev(o):
        return [dict(k="coll", c=rects, b=list(q[:4]), lim=q[4], h=o[n+i]["h"]) for i, q in enumerate(qs)]
    return Scen(B.cmds, ev, f"search of {k} of {len(c)}")


def searchcanaries():
    a, b = [[0, 0], [4, 0], [4, 4], [0, 4]], [[-1, 2], [2, 2], [2, 9]]
    h = [[2, 1, [4, 4], [0, 4], [2, 2], [2, 9]], [3, 0, [0, 4], [0, 0], [-1, 2], [2, 2]]]
    base = dict(k="pair", a=a, b=b, ra=True, rb=False, lim=0)
    out = [dict(base, h=h[:1]), dict(base, h=h[1:]), dict(base, h=h+h[:1]), dict(base, h=h+[[0, 1, [0, 0], [4, 0], [2, 2], [2, 9]]]),
           dict(base, h=[h[0], [3, 0, [0, 0], [0, 4], [-1, 2], [2, 2]]]), dict(base, lim=1, h=h), dict(base, lim=1, h=[])]
    out += [dict(k="segs", q=[[[0, 0, 2, 2], [0, 2, 2, 0]]], r=[0]), dict(k="segs", q=[[[0, 0, 2, 2], [3, 3, 4, 4]]], r=[1])]
    c = [[0, 0, 1, 1], [], [5, 5, 6, 6]]
    out += [dict(k="coll", c=c, b=[1, 1, 5, 5], lim=0, h=h) for h in ([[0, c[0]]], [[0, c[0]], [2, c[2]], [2, c[2]]], [[0, c[0]], [1, []], [2, c[2]]], [[0, c[0]], [2, [5, 5, 6, 7]]])]
    return out
