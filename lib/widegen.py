"""Points, segments and triangles whose coordinates have as many digits as products of doubles can have."""
from relcheck import *
from geombase import egcd, cross, xft

MOST = 94906265     # its square is the largest below 2^53


def near(rng, a, d, most):
    "positions on and next to the line from a along d"
    g = math.gcd(*map(abs, d))
    x, y = d[0]//g, d[1]//g
    _, p, q = egcd(abs(x), abs(y))
    u = -q*(1 if y >= 0 else -1), p*(1 if x >= 0 else -1)     # the cross product of (x, y) and u is one
    out = []
    for _ in range(8):
        k = rng.choice([0, 1, -1, 1, -1, 2, -3])
        j = rng.randint(-1, g+1) if rng.random() < .5 else rng.choice([-1, 0, 1, g-1, g, g+1])
        s = rng.choice([0, 0, 0, 1, -1])
        out.append((a[0]+k*u[0]+j*x, a[1]+k*u[1]+j*y))
        out.append((out[-1][0]+s, out[-1][1]+rng.choice([0, s])))
    return out


def pool(rng):
    most = rng.choice([MOST, MOST, MOST, MOST, 1 << 20, 1 << 12, 60, 8])
    x0, y0 = [0 if rng.random() < .2 else rng.randint(-most, most//2) for _ in "xy"]
    R = lambda: (x0+rng.randint(0, most), y0+rng.randint(0, most))
    C = lambda: (x0+rng.choice([0, 0, most, most-1, most//2]), y0+rng.choice([0, 0, most, most-1, most//3]))
    a, b = rng.choice([R, C])(), rng.choice([R, C, C])()
    p = [a, b]
    for _ in range(rng.randint(1, 3)):
        u, v = rng.sample(p, 2)
        if u != v: p += near(rng, u, (v[0]-u[0], v[1]-u[1]), most)
        if rng.random() < .3: p.append(R())
    p = [q for q in dict.fromkeys(p) if x0 <= q[0] <= x0+most and y0 <= q[1] <= y0+most]
    while len(p) < 4: p.append(R())
    return p, most


def simplex(rng, p, n):
    while True:
        s = rng.sample(p, n)
        if n == 2 and s[0] == s[1]: n = 1; continue
        if n == 3 and not cross(s[1][0]-s[0][0], s[1][1]-s[0][1], s[2][0]-s[0][0], s[2][1]-s[0][1]):
            if rng.random() < .2: n = 2
            continue
        return s


def crossing(rng):
    "two long segments, one of which ends on, just before or just behind the other"
    R = lambda: rng.randint(0, MOST) if rng.random() < .5 else rng.choice([0, 1, MOST-1, MOST])
    while True:
        c, d, a = (R(), R()), (R(), R()), (R(), R())
        if c == d: continue
        b = [p for p in near(rng, c, (d[0]-c[0], d[1]-c[1]), MOST) if 0 <= p[0] <= MOST and 0 <= p[1] <= MOST and p != a]
        if not b: continue
        s, t = [a, rng.choice(b)], [c, d]
        for x in (s, t): rng.shuffle(x)
        return (s, t) if rng.random() < .5 else (t, s)


def one_wide(rng, kind):
    p, most = pool(rng)
    if kind == "segs":
        return [(simplex(rng, p, 2), simplex(rng, p, 2)) if rng.random() < .5 else crossing(rng) for _ in range(16)], None, xft(rng), most
    if kind == "rel" and rng.random() < .2:
        a, b = crossing(rng)
        r = (rng.randint(0, MOST), rng.randint(0, MOST))
        if rng.random() < .7 and cross(a[1][0]-a[0][0], a[1][1]-a[0][1], r[0]-a[0][0], r[1]-a[0][1]): a = a+[r]
        return a, b, xft(rng), MOST
    a = simplex(rng, p, rng.choice([1, 2, 2, 3, 3, 3]))
    if kind == "loc": return a, (p+a)[-24:], xft(rng), most
    b = simplex(rng, p, rng.choice([1, 2, 2, 3, 3, 3]) if len(a) > 1 else rng.choice([2, 3, 3]))
    return a, b, xft(rng), most


def shape(s):
    return P(s[0]) if len(s) == 1 else L(s) if len(s) == 2 else G([s + [s[0]]])


def widescen(t, kind, cols=ALL):
    a, b, xf, most = t
    B = Build()
    B.cmds.append("xf %d %d %d" % xf)
    ls = lambda s: [list(p) for p in s]
    if kind == "segs":
        if any(len(x) < 2 for x in sum(a, ())): a = [x for x in a if len(x[0]) == len(x[1]) == 2]
        B.cmds += ["segseg %d %d %d %d %d %d %d %d" % sum(u+v, ()) for u, v in [(x[0], x[1]) for x in [(tuple(u), tuple(v)) for u, v in a]]]
        B.cmds.append("xf 0 0 0")
        return Scen(B.cmds, lambda o: [dict(k="segs", q=[[ls(u), ls(v)] for u, v in a], r=[x["r"] for x in o[1:-1]])], f"segments {a[:2]} ...")
    s = B.geom(shape(a), "none")
    if kind == "loc":
        B.cmds.append(f"loc {s} {B.pts(b)}")
        k = len(B.cmds)-1
        ev = lambda o: [dict(k="loc", a=ls(a), q=ls(b), r=o[k]["r"])]
    else:
        s2 = B.geom(shape(b), "none")
        B.cmds.append(f"rel {s} {s2}")
        k = len(B.cmds)-1
        ev = lambda o: [dict(k="rel", a=ls(a), b=ls(b), r=o[k]["r"], m=cols, small=most < 100)]
    B.done()
    B.cmds.append("xf 0 0 0")
    return Scen(B.cmds, ev, f"{kind} {a} {b}")


def widecanaries(kind, cols=ALL):
    D = 67108864
    t = [[0, 0], [D, D-1], [D-1, D-2]]     # its area is a half
    if kind == "segs":
        return [dict(k="segs", q=[[[[0, 0], [D, D-1]], [[D-1, D-2], [0, D]]]], r=[0]), dict(k="segs", q=[[[[0, 0], [D, D-1]], [[D-1, D-2], [D, 0]]]], r=[1])]
    if kind == "loc":
        return [dict(k="loc", a=t, q=[[1, 1]], r=[[0]*i + [1] + [0]*(7-i)]) for i in range(8)]
    r, out = [0, 1, 0, 0, 0, 1, 0, 1] + [0, 1, 0, 0, 0, 0, 1, 1], []
    for c in cols:
        for d in (c-1, c+7):
            x = list(r)
            x[d] ^= 1
            out.append(dict(k="rel", a=t, b=[[D, D-1], [D-1, D-2]], r=x, m=cols, small=False))
    return out


def wide(ctx, n, kind, cols=ALL):
    ctx.check("WideTrace", [widescen(t, kind, cols) for t in pgen(ctx.rng, one_wide, n, kind)], canaries=widecanaries(kind, cols))
