from codeccheck import *


def run(ctx):
    ts = pgen(ctx.rng, one_auto, 5000 if ctx.quick else 90000)
    ctx.check("CodecTrace", [autoscen(t) for t in ts], canaries=can("auto"))
    return ctx.finish("model_checking", "valid and damaged input of every format, with leading and trailing space, and random text; decided by CodecTrace.tla")
