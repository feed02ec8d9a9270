"""L01: TLC makes histories of handles (OwnGen.tla), they are replayed into the
library with a recording allocator, and OwnTrace.tla judges the records."""
from owngen import *

RULE = "one event per operation of a replayed history; distinct by record"


def run(ctx):
    q = ctx.quick
    n = refine(ctx, 2 if q else 3, 3 if q else 5, 2)
    ctx.stats["refinement"] = n
    small = dict(slots=3, tpls=["r1", "t1"], compose=["poly", "gc"], maxargs=2, bfs=True)
    hs = histories(ctx, 0, 4, **small) if q else histories(ctx, 0, 5, **small)
    every = len(hs)
    if q:
        ctx.rng.shuffle(hs)
        hs = hs[:600]
    elif every > 40000:
        ctx.rng.shuffle(hs)
        hs = hs[:40000]
    m = mixed(ctx, 60 if q else 1500, 16 if q else 24, ["all", "poly", "line", "parts", "nest"])
    replay(ctx, hs + m)
    replay(ctx, m[::4] if q else m, variants=("san",) if q else ("san", "sannoatomics", "noamalga", "static"), canaries=False)
    ctx.assumptions += ["histories beyond the bounds behave like those within", "fingerprints of 31 bits stand for contents"]
    return ctx.finish("model_checking", RULE, dict(small_histories=every, small_histories_replayed=len(hs), refinement_states=n))
