"""L04: histories rich in copies, judged by OwnTrace.tla."""
from owngen import *


def run(ctx):
    q = ctx.quick
    m = mixed(ctx, 80 if q else 2500, 14 if q else 20, ["copies", "copyparts", "all", "parts"])
    replay(ctx, m)
    replay(ctx, m[::4] if q else m[::2], variants=("san",) if q else ("san", "ixfloat64", "noamalga"), canaries=False)
    return ctx.finish("model_checking", "one event per operation of a replayed history; distinct by record")
