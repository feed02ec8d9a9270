from codeccheck import *


def run(ctx):
    n = 1 if ctx.quick else 25
    ctx.check("CodecTrace", [decscen(t) for t in pgen(ctx.rng, one_numread, 1600 * n)], canaries=[c for c in can("dec") if c["f"] >= 3])
    ctx.check("CodecTrace", [numwscen(t) for t in pgen(ctx.rng, one_numwrite, 500 * n)], canaries=can("enc"))
    ctx.check("CodecTrace", [decscen(t) for t in pgen(ctx.rng, one_numread, 300 * n)], variants=("noamalga",))
    ctx.check("CodecTrace", [numwscen(t) for t in pgen(ctx.rng, one_numwrite, 100 * n)], variants=("noamalga",))
    return ctx.finish("model_checking", "numbers in text: short, long, on and around the midpoint of two doubles, at the limits of the range, leading and trailing zeros; "
                      "doubles of all magnitudes, neighbours of powers of ten and two; decided with exact integers by CodecTrace.tla and Dbl.tla")
