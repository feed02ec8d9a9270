from codeccheck import *


def run(ctx):
    decode(ctx, ["geojson"], 2000 if ctx.quick else 50000)
    return ctx.finish("model_checking", "GeoJSON geometries, features and collections with members in any order, repeated, escaped and nested, varied spacing and numbers, token sequences, and single and multiple edits; decided by CodecTrace.tla")
