"""A02: what objects of replayed histories say they take, against what was
taken from the allocator for them (OwnTrace.tla)."""
from owngen import *


def run(ctx):
    q = ctx.quick
    m = mixed(ctx, 80 if q else 2500, 12 if q else 18, ["all", "poly", "line", "parts", "copyparts"])
    replay(ctx, m, variants=("main",) if q else ("main", "ixfloat64", "noamalga", "clang"))
    if q:
        replay(ctx, m[::5], variants=("ixfloat64",), canaries=False)
    return ctx.finish("model_checking", "one event per operation of a replayed history; distinct by record")
