from reprgen import *


def run(ctx):
    n, k = (2600, 8) if ctx.quick else (30000, 12)
    sc = [reprscen(t) for t in pgen(ctx.rng, one_repr, n, k)]
    ctx.check("ReprTrace", sc, canaries=reprcanaries())
    return ctx.finish("model_checking", f"pairs as in G02-G06, each in {k} representations: rotated, reversed and split rings, reversed lines, shuffled holes, "
                      "transposed, mirrored, sheared and translated, parsed from each format or as a feature, written and read back, as a single member, "
                      "cast, cloned and copied, with any index; all of them have to give the answers of Planar.tla")
