"""L03: histories in which the allocator fails, at every request of single
operations and at chosen ones of longer histories, judged by OwnTrace.tla."""
from owngen import *
from vlib import pgen


def sweeps(ctx, n):
    "for every template and constructor, every request fails, once or from then on"
    out = []
    E = lambda op, d, a, x, f=0, i=0: dict(op=op, d=d, a=a, x=x, i=i, f=f)
    for t in Tpls:
        for _ in range(n):
            out.append(([E("new", 1, [], t)], E("new", 2, [], t)))
            out.append(([E("new", 1, [], t)], E("copy", 2, [1], "")))
    for x, args in Makes:
        for _ in range(n):
            pre = [E("new", i+1, [], ctx.rng.choice(a)) for i, a in enumerate(args)]
            a = list(range(1, len(args)+1))
            out.append((pre, E("make", 7, a, x)))
            out.append((pre + [E("make", 7, a, x)], E("copy", 8, [7], "")))
    return out


Tpls = "r1 r2 r3 l1 l2 pt ptz mp mpz em t1 t2 t3 t4 t5 t6 t7 t8 t9 bad".split()
R, L, A = ["r1", "r2", "r3"], ["l1", "l2"], "r1 r2 l2 pt ptz mpz em t1 t2 t5 t6 t7 t8".split()
Makes = [("poly", [R, R, R]), ("poly", [R]), ("gline", [L]), ("gpoly", [R]), ("zline", [L]), ("zpoly", [R]), ("ml", [L, L]), ("zml", [L, L]),
         ("mpoly", [R, R]), ("zmpoly", [R, R]), ("gc", [A, A, A]), ("gc", [A])]


def run(ctx):
    q = ctx.quick
    scens = []
    base = ctx.build("main")
    for pre, e in sweeps(ctx, 1 if q else 12):
        seed = ctx.rng.getrandbits(40)
        import random
        # how many requests does the operation make?
        s = scen(random.Random(seed), pre + [e])
        outs = ctx.drive_raw(base, [c if c != "st" else "alloc" for c in s.cmds])
        al = [o for o in outs if "total" in o]
        n = al[len(pre)]["total"] - al[len(pre)-1]["total"]
        for run_ in (1, 0):
            for k in range(1, min(n, 40 if q else 400)+1):
                scens.append(scen(random.Random(seed), pre + [dict(e, f=k)], run_))
    ctx.rng.shuffle(scens)
    if q:
        scens = scens[:1600]
    ctx.check("OwnTrace", scens, env=dict(FOCUS="L03"), group=lambda e: e["g"], per_batch=50)
    ctx.check("OwnTrace", scens[::6] if q else scens, variants=("san",) if q else ("san", "noamalga"), env=dict(FOCUS="L03"), group=lambda e: e["g"], per_batch=50)
    # searches: the queue of nearest-segment queries
    from checks import I03
    sc = []
    for t in pgen(ctx.rng, I03.one, 60 if q else 2000, .6):
        ring, a, qs, ix, xf = t
        sc.append(I03.scenof((ring, a, [x[:5] + (k+1,) for k, x in enumerate(qs)], ix, xf)))
    ctx.check("NearestTrace", sc, canaries=I03.canaries(), per_batch=30)
    m = mixed(ctx, 50 if q else 1500, 10 if q else 16, ["all", "poly", "copyparts"], faults=(0, 1, 2, 3, 4, 5, 7, 9, 12))
    replay(ctx, m)
    if not q:
        replay(ctx, m, run=0, variants=("san",), canaries=False)
    return ctx.finish("model_checking", "one event per operation of a replayed history; distinct by record", dict(single_operation_faults=len(scens)))
