"""Programs of constructor calls, for the accessors (AccessTrace.tla)."""
import struct
from vlib import Scen

IX = ["none", "natural", "ystripes", "default", "natural:2", "ystripes:3", "natural:5", "none:2"]


def bits(x): return struct.pack(">d", float(x)).hex()


def one_prog(rng):
    R = rng.choice([3, 50, 1000])
    P = lambda n: [[rng.randint(-R, R), rng.randint(-R, R)] for _ in range(n)]
    steps = []
    by = dict(ring=[], line=[], poly=[], geom=[])
    kind = {0: "no"}
    npos = {}

    def add(k, op, d="", a=(), p=(), x=(), nx=0, nh=0, t=0, w="", ix="none"):
        steps.append(dict(op=op, d=d, a=list(a), p=[list(q) for q in p], x=list(x), nx=nx, nh=nh, t=t, w=w, ix=ix))
        if k: by[k].append(len(steps))
        return len(steps)

    def series(k):
        n = rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 6, 9, 33])
        p = P(n)
        if k == "ring" and n > 2 and rng.random() < .7: p.append(list(p[0]))
        if n > 1 and rng.random() < .15: p[1] = list(p[0])
        if n > 2 and rng.random() < .1: p[-1] = list(p[0])
        i = add(k, k, p=p, ix=rng.choice(IX))
        npos[i] = len(p)
        return i

    def extra(n):
        "dimensions, and the right number of coordinates, or not"
        d = rng.choice(["", "z", "m", "zm"])
        if not d: return dict(d="")
        k = len(d)*n
        q = rng.random()
        if q > .6: k = rng.choice([0, 1, max(0, k-1), k+1, k+3])
        x = [rng.randint(-R, R) for _ in range(k)]
        nx = k if q < .95 else -rng.randint(1, 3)
        return dict(d=d, x=x, nx=nx)
    pick = lambda k: rng.choice(by[k]) if by[k] else None
    for _ in range(rng.randint(3, 16)):
        op = rng.choice(["ring", "ring", "line", "line", "poly", "poly", "gline", "gpoly", "mp", "ml", "mpoly", "gc", "gc", "pt", "empty", "err", "clone", "copy"])
        if op in ("ring", "line"): series(op)
        elif op == "poly":
            e = pick("ring")
            if e is None: continue
            hs = [rng.choice(by["ring"]) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
            nh = len(hs)
            q = rng.random()
            if q < .06: e = 0
            elif q < .16 and hs: hs[rng.randrange(len(hs))] = 0
            elif q < .2 and not hs: nh = -rng.randint(1, 2)
            i = add(None if e == 0 or 0 in hs else "poly", op, a=[e] + hs, nh=nh)
            if e and 0 not in hs: npos[i] = sum(npos[j] for j in [e] + hs)
        elif op in ("gline", "gpoly"):
            a = pick("line" if op == "gline" else "poly")
            if a is None: continue
            add("geom", op, a=[a], **extra(npos[a]))
        elif op == "mp":
            p = P(rng.choice([0, 1, 2, 5]) if rng.random() < .95 else 65)
            add("geom", op, p=p, **extra(len(p)))
        elif op in ("ml", "mpoly"):
            k = "line" if op == "ml" else "poly"
            a = [pick(k) for _ in range(rng.choice([0, 1, 2, 3]))] if by[k] else []
            add("geom", op, a=a, **extra(sum(npos[j] for j in a)))
        elif op == "gc":
            a = [rng.choice(by["geom"]) for _ in range(rng.choice([0, 1, 2, 3]))] if by["geom"] else []
            add("geom", op, a=a)
        elif op == "pt":
            d = rng.choice(["", "z", "m", "zm"])
            add("geom", op, d=d, p=P(1), x=[rng.randint(-R, R) for _ in range(len(d))], nx=len(d))
        elif op == "empty": add("geom", op, t=rng.randint(1, 7))
        elif op == "err": add(None, op, w=rng.choice(["x", "out_of_luck", "%s%n", "a\"b\\"]))
        elif op in ("clone", "copy"):
            k = rng.choice(list(by))
            a = pick(k)
            if a is None: continue
            i = add(k, op, a=[a])
            if a in npos: npos[i] = npos[a]
    n = len(steps)
    look = sorted(rng.sample(range(1, n+1), min(n, 4))) if n else []
    # what an object was made of is freed before it is looked at, or not
    gone = [i for i in range(1, n+1) if i not in look and rng.random() < .5] if rng.random() < .5 else []
    return steps, look, gone


def cmd(i, s):
    op, a = s["op"], " ".join(map(str, s["a"]))
    pts = f"{len(s['p'])} " + " ".join("%d %d" % tuple(p) for p in s["p"])
    many = f"{len(s['a'])} {a}"
    if op in ("ring", "line"): return f"{op} {i} {s['ix']} {pts}"
    if op == "poly": return f"poly {i} {s['a'][0]} {len(s['a'])-1} " + (" ".join(map(str, s["a"][1:])) if len(s["a"]) > 1 else str(s["nh"]) if s["nh"] else "")
    if op in ("clone", "copy"): return f"{op} {i} {a}"
    if op == "empty": return f"empty {i} {s['t']}"
    if op == "err": return f"err {i} {s['w']}"
    if op == "pt" and s["d"]: return f"ext {i} pt {s['d']} {s['p'][0][0]} {s['p'][0][1]} " + " ".join(map(bits, s["x"]))
    if op == "pt": return f"pt {i} {s['p'][0][0]} {s['p'][0][1]}"
    arg = a if op in ("gline", "gpoly") else pts if op == "mp" else many
    if not s["d"]: return f"{op} {i} {arg}"
    xs = s["x"] if s["nx"] >= 0 else []
    return f"ext {i} {dict(gline='line', gpoly='poly').get(op, op)} {s['d']} {arg} {s['nx']} " + " ".join(map(bits, xs))


def accscen(t):
    steps, look, gone = t
    cmds = [cmd(i+1, s) for i, s in enumerate(steps)] + [f"free {i}" for i in gone]
    k = len(cmds)
    cmds += [f"acc {i}" for i in look] + ["acc 0", "freeall"]
    prog = [dict(s, w=list(s["w"].encode())) for s in steps]

    def ev(o):
        return [dict(k="acc", prog=prog, i=i, o=o[k+j]) for j, i in enumerate(look + ([0] if len(steps) % 8 == 3 else []))]
    return Scen(cmds, ev, "accessors after " + " ; ".join(cmds[:k])[:300])


def nonescen(): return Scen(["accnone"], lambda o: [dict(k="none", o=o[0])], "functions of nothing")


def acccanaries(ctx):
    "a record of every accessor, each with one answer changed"
    import copy, json
    b = ctx.build("main")
    z = dict(d="", a=[], p=[], x=[], nx=0, nh=0, t=0, w="", ix="none")
    steps = [dict(z, op="ring", p=[[0, 0], [9, 0], [9, 9], [0, 9], [0, 0]]), dict(z, op="ring", p=[[1, 1], [2, 1], [2, 2], [1, 1]]), dict(z, op="poly", a=[1, 2], nh=1),
             dict(z, op="gpoly", a=[3], d="zm", x=list(range(18)), nx=18), dict(z, op="line", p=[[4, 5], [6, 8]]), dict(z, op="ml", a=[5, 5]), dict(z, op="pt", d="zm", p=[[3, 3]], x=[4, 5], nx=2),
             dict(z, op="gc", a=[4, 6, 7]), dict(z, op="err", w="bad")]
    out = []
    for i in (0, 1, 3, 4, 5, 6, 7, 8, 9):
        base = accscen((steps, [i], [])).events(ctx.drive_raw(b, accscen((steps, [i], [])).cmds))[0]

        def paths(x, pre):
            if isinstance(x, dict):
                for k, v in x.items(): yield from paths(v, pre + [k])
            elif isinstance(x, list):
                if not x and pre[-1] not in ("s", "l", "y"): yield pre, "grow"
                for j, v in enumerate(x): yield from paths(v, pre + [j])
            else: yield pre, "add"
        all_ = [(p, how) for p, how in paths(base["o"], []) if not (p[-2:-1] == ["meas"] and i) and p[-1] != "hp"
                and not (i == 9 and p[1:2] not in (["err"], ["xj"])) and not (i == 0 and p[1:2] == ["err"]) and p[:2] != ["g", "ms"]
                and p != ["k"] and not (i == 8 and p[:2] == ["g", "fr"])]
        for p, how in ctx.rng.sample(all_, min(12, len(all_))):
            e = copy.deepcopy(base)
            x = e["o"]
            for q in p[:-1]: x = x[q]
            if how == "add": x[p[-1]] += 1
            else: x[p[-1]].append([] if p[-1] != "xc" else 7)
            out.append(e)
    no = nonescen().events(ctx.drive_raw(b, ["accnone"]))[0]
    for k, v in (("calls", 1), ("made", 1), ("isect", [0, 1]), ("ts", no["o"]["ts"][::-1])):
        out.append(dict(no, o=dict(no["o"], **{k: v})))
    e = copy.deepcopy(no)
    e["o"]["pred"][4][1] = 1
    return out + [e]
