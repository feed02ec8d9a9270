from codeccheck import *


def run(ctx):
    decode(ctx, ["geobin", "hex"], 4500 if ctx.quick else 120000)
    return ctx.finish("model_checking", "GeoBIN of all heads, dimensions, members and nesting, hex of it and of WKB in either case, and their single and multiple edits; decided by CodecTrace.tla")
