from searchgen import *


def one(rng, big):
    n = rng.choice([2, 3, 5, 9, 16, 31, 32, 33, 48, 64, 100] + ([260, 300, 700] if rng.random() < big else []))
    N = rng.choice([6, 30, 90])
    a = series(rng, min(n, 90), N)
    while len(a) < n:
        a = a + [(x+rng.randint(-1, 1), y+rng.randint(-1, 1)) for x, y in series(rng, 60, N)]
    ring = rng.random() < .6
    qs = []
    for _ in range(5):
        q = rng.choice(a) if rng.random() < .3 else (rng.randint(-N, 2*N), rng.randint(-N, 2*N))
        qs.append((q[0], q[1], rng.randrange(3), rng.choice([0, 0, 1, 2, 7, 40]), rng.choice([0, 1, 2, 3, 4, 6]), rng.choice([0, 0, 0, 1, 2, 3, 4])))
    return ring, a, qs, rng.choice(SRIX), (rng.randint(-6, 12), rng.randint(-999, 999), rng.randint(-999, 999)) if rng.random() < .3 else None


def scenof(t):
    ring, a, qs, ix, xf = t
    cmds = ["xf %d %d %d" % xf] if xf else []
    cmds += [f"{'ring' if ring else 'line'} 0 {ix} {Build.pts(a)}"]
    k = len(cmds)
    cmds += ["nearest 0 %d %d %d %d %d %d" % q for q in qs] + ["freeall"] + (["xf 0 0 0"] if xf else [])
    la = [list(p) for p in a]

    def ev(o):
        return [dict(a=la, ring=ring, q=[q[0], q[1]], metric=q[2], lim=q[3], h=o[k+i]["h"], ok=o[k+i]["ok"], nf=o[k+i]["nf"]) for i, q in enumerate(qs)]
    return Scen(cmds, ev, f"nearest {'ring' if ring else 'line'} {la} {ix} {qs}")


def canaries():
    a = [[0, 0], [4, 0], [4, 4], [0, 4]]
    s = [[0, 0, [0, 0], [4, 0]], [3, 1, [0, 4], [0, 0]], [1, 9, [4, 0], [4, 4]], [2, 16, [4, 4], [0, 4]]]
    base = dict(a=a, ring=True, q=[1, 0], metric=0, lim=0, ok=1, nf=0)
    return [dict(base, h=h) for h in (s[:3], s + s[:1], [s[1], s[0]] + s[2:], s[:1] + s[2:], s[:3] + [[2, 17, [4, 4], [0, 4]]], s[:3] + [[4, 17, [4, 4], [0, 4]]])] + \
        [dict(base, lim=2, h=h) for h in (s[:1], s[:3], [s[0], s[2]])] + [dict(base, h=s, ok=0), dict(base, h=s[:2], nf=1)]


def run(ctx):
    n = 800 if ctx.quick else 10000
    sc = [scenof(t) for t in pgen(ctx.rng, one, n, .5)]
    ctx.check("NearestTrace", sc, canaries=canaries(), per_batch=100)
    return ctx.finish("model_checking", "rings and lines of up to 800 positions with every index option, query points around them, three distance "
                      "functions, partial distances answered by the callbacks, no rectangle callback, early stops, and a failing allocation; decided by NearestTrace.tla")
