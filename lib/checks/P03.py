from codeccheck import *


def run(ctx):
    decode(ctx, ["wkt"], 2600 if ctx.quick else 60000)
    return ctx.finish("model_checking", "WKT of every type and dimension with varied case, spacing, suffixes and numbers, token sequences, and single and multiple edits; decided by CodecTrace.tla")
