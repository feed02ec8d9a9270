from searchgen import *


def run(ctx):
    n = 250 if ctx.quick else 4000
    sc = [collscen(t) for t in pgen(ctx.rng, one_coll, n)]
    ctx.check("SearchTrace", sc, canaries=searchcanaries(), per_batch=40)
    return ctx.finish("model_checking", "multis and collections of 1 to 1100 members (some empty), ten boxes each, among them degenerate boxes "
                      "and boxes that only touch a member, with and without a stop; decided by SearchTrace.tla")
