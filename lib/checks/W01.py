from codeccheck import *


def run(ctx):
    ts = pgen(ctx.rng, one_buf, 900 if ctx.quick else 12000)
    ctx.check("CodecTrace", [bufscen(t) for t in ts], canaries=can("buf"))
    ctx.check("CodecTrace", [bufscen(t) for t in pgen(ctx.rng, one_buf, 150 if ctx.quick else 3000)], variants=("san",))
    # lengths that need more than 31 bits
    for nd in [(67_200_003, 4)] + ([] if ctx.quick else [(89_600_001, 3), (135_000_007, 2), (269_000_011, 2)]):
        ctx.check("CodecTrace", [longscen(nd)], canaries=can("len"))
    return ctx.finish("model_checking", "every writer over geometries of all types, dimensions and numbers, into buffers of no, small and random sizes and of the "
                      "size needed, plain and exponent notation, and lengths beyond 2^31; also under AddressSanitizer; decided by CodecTrace.tla")
