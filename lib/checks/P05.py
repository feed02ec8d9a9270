from codeccheck import *


def run(ctx):
    n = 2100 if ctx.quick else 60000
    ts = pgen(ctx.rng, one_hostile, n)
    ctx.check("CodecTrace", [anyscen(t) for t in ts], variants=("san",), canaries=can("any"), per_batch=100)
    ctx.check("CodecTrace", [anyscen(t) for t in ts[::3]], variants=("sandeps",), per_batch=100)
    ctx.check("CodecTrace", [anyscen(t) for t in ts[1::3]], variants=("main",), per_batch=100)
    return ctx.finish("model_checking", "mutated, truncated, random, deeply nested, very long and overcounting input in every format through each entry point; what is "
                      "returned is written, copied, cloned, related and freed; under AddressSanitizer and UBSan in the single-file and the separate "
                      "build; results decided by CodecTrace.tla")
