from codeccheck import *


def run(ctx):
    ts = pgen(ctx.rng, one_gbin, 6000 if ctx.quick else 100000)
    ctx.check("CodecTrace", [gbinscen(t) for t in ts], canaries=can("gbin"))
    ctx.check("CodecTrace", [gbinscen(t) for t in ts[::8]], variants=("san",))
    return ctx.finish("model_checking", "GeoBIN written for geometries of all types and dimensions, well-formed and damaged GeoBIN, and headers with truncated or "
                      "random contents, also under AddressSanitizer; decided by CodecTrace.tla")
