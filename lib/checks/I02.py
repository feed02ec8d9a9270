from searchgen import *
from widegen import wide


def run(ctx):
    n = 900 if ctx.quick else 12000
    sc = [pairscen(t) for t in pgen(ctx.rng, one_pairsearch, n, not ctx.quick)]
    sc += allsegpairs() + [segsscen(t) for t in pgen(ctx.rng, one_segs, n // 3, 40)]
    ctx.check("SearchTrace", sc, canaries=searchcanaries())
    wide(ctx, n, "segs")
    return ctx.finish("model_checking", "pairs of rings/lines up to 50 (150 thorough) positions with repeated positions, reversals and shared parts, "
                      "all index kinds and spreads, each searched without a limit, with a stop after the first, and after some number; "
                      "every pair of segments on a 3x3 grid, and random ones; segments with all the digits of doubles; decided by SearchTrace.tla and Wide.tla")
