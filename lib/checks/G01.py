from locgen import *
from widegen import wide


def run(ctx):
    n, m = (1600, 24) if ctx.quick else (16000, 40)
    sc = [locscen(*t) for t in pgen(ctx.rng, one_loc, n, m)]
    sc += [locscen(*t) for t in pgen(ctx.rng, one_comb, n//8)]
    sc += [locscen(*t) for t in pgen(ctx.rng, one_sliver, n)]
    ctx.check("LocTrace", sc, canaries=loccanaries())
    wide(ctx, n, "loc")
    return ctx.finish("model_checking", "slivers as thin as doubles can tell, combs with level tops at even fractions of their height, geometries of every kind (rings up to 70 vertices, saw-tooth rings, several holes, collections), every index "
                      "option, each with query points on vertices, on edges, level with vertices, and around, and boxes; decided by Planar.tla and Wide.tla")
