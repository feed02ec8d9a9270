from seriesgen import *


def run(ctx):
    n = 700 if ctx.quick else 9000
    ts = pgen(ctx.rng, one_level, n)
    ctx.check("SeriesTrace", [levelscen(False)(t) for t in ts], canaries=seriescanaries(), per_batch=50)
    ctx.check("SeriesTrace", [levelscen(True)(t) for t in ts[::2]], variants=("ixfloat64",), per_batch=50)
    return ctx.finish("model_checking", "rings and lines of 2 to 700 positions around the indexing thresholds, spreads 1 to 5000 given explicitly "
                      "or as the default, and their copies; rectangles exact in the wide build and within single precision otherwise; decided by SeriesTrace.tla")
