from widegen import *

MINE = [COLS[c] for c in "equals,contains,within,covers,coveredby".split(",")]


def run(ctx):
    n = 9000 if ctx.quick else 120000
    sc = mixed(ctx, n, MINE)
    ctx.check("RelateTrace", sc, canaries=canaries(MINE), variants=("main",))
    wide(ctx, n, "rel", MINE)
    return ctx.finish("model_checking", "pairs of points, simple lines, polygons with (several) holes, multis and collections on integer grids "
                      "(scaled and translated exactly in a third of them), built to share vertices, edges and boundary pieces; "
                      "points, segments and triangles with all the digits that products of doubles have; distinct counts distinct events; decided by Planar.tla and Wide.tla")
