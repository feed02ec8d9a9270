from seriesgen import *


def run(ctx):
    n = 2500 if ctx.quick else 30000
    sc = [treescen(g) for g in pgen(ctx.rng, one_tree, n)] + [ropsscen(q) for q in pgen(ctx.rng, one_rops, n//20)]
    ctx.check("SeriesTrace", sc, canaries=seriescanaries())
    return ctx.finish("model_checking", "geometries of every kind and dimension, nested collections with empty members, large collections, their copies, "
                      "and rectangle operations on random boxes; decided by SeriesTrace.tla")
