from codeccheck import *


def run(ctx):
    decode(ctx, ["wkb"], 4500 if ctx.quick else 120000)
    return ctx.finish("model_checking", "WKB of every type and dimension, byte order mixed at each level, ISO and extended type codes with and without SRID, raw coordinates, empties, and their single and multiple edits; decided by CodecTrace.tla")
