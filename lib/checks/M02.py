from seriesgen import *


def run(ctx):
    n = 5000 if ctx.quick else 60000
    sc = [measscen(t) for t in pgen(ctx.rng, one_meas, n)]
    ctx.check("SeriesTrace", sc, canaries=seriescanaries())
    return ctx.finish("model_checking", "rings and lines up to 45 positions with every start vertex and winding, collinear and repeated positions, explicitly "
                      "closed or not, exactly scaled; decided by SeriesTrace.tla")
