from reprgen import *


def run(ctx):
    n, m = (120, 1200) if ctx.quick else (1500, 12000)
    sc = [indexscen(t) for t in pgen(ctx.rng, one_index, n)]
    ctx.check("ReprTrace", sc, canaries=reprcanaries(), per_batch=4, timeout=120)
    sc = [locscen(*t) for t in pgen(ctx.rng, one_loc, m // 2, 16)]
    ctx.check("LocTrace", sc, canaries=loccanaries())
    ctx.check("RelateTrace", bigpairs(ctx, m, ALL), canaries=canaries(ALL))
    return ctx.finish("model_checking", f"{n} pairs with rings of 20 to 600 positions under eleven index options, spreads and defaults: relations, locations, "
                      "boxes, searches, measures and nearest segments are all the same; and small indexed inputs against Planar.tla")
