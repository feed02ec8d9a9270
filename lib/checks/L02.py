"""L02: the counting design in all interleavings (ConcGen.tla), and its schedules in the real code, judged by the memory model (ConcTrace.tla)."""
from conccheck import *


def run(ctx):
    q, r = ctx.quick, ctx.rng
    n = right(ctx, "alone", 2, 3) + right(ctx, "code", 2, 4) + right(ctx, "code", 3, 3 if q else 4)
    if not q: n += right(ctx, "both", 3, 3) + right(ctx, "seqcst", 3, 3) + right(ctx, "alone", 3, 3) + right(ctx, "code", 2, 6)
    wrong(ctx, ["relaxed", "no fence", "plain", "look then dec", "dec then look"])
    every = schedules(ctx, 2, 3)
    some = r.sample(every, min(len(every), 700 if q else 10**6))
    sc = [scen(r, x, r.choice(HOLDERS)) for x in some]
    long = schedules(ctx, 3, 4 if q else 5, 700 if q else 12000) + schedules(ctx, 2, 6, 300 if q else 6000)
    for x in long:
        # long runs on big objects take long to judge
        sc.append(scen(r, x, r.choice(KINDS[:-1] if r.random() < .98 else KINDS), r.random() < .6))
    good, cs = canaries()
    if ctx.validate("ConcTrace", [good], cs): raise Infra("ConcTrace rejects a right run")
    ctx.check("ConcTrace", sc, variants=("conc",), src="conc.c", per_batch=50)
    ctx.assumptions += ["accesses inside the C library are not seen", "threads hand over before atomic accesses to shared memory and releases of it; plain accesses are judged by happens-before"]
    return ctx.finish("model_checking", "all programs of two threads (three operations each) and all their schedules in the model, sampled in quick; longer ones of two and three threads at random; "
                      "objects of every kind with members; cloning, taking members, all families of queries, copying, composing and freeing", dict(design_states=n, small_schedules=len(every), small_schedules_replayed=len(some)))
