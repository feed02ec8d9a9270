from codeccheck import *
EMPTY = [("wkb", "0105000000010000000102000000" + "00000000"), ("wkb", "0106000000010000000103000000" + "00000000")]


def run(ctx):
    n = 1500 if ctx.quick else 30000
    ctx.check("CodecTrace", [rtscen(t, ix=IXS[i % 4], fixed=i % 7 == 0) for i, t in enumerate(pgen(ctx.rng, one_source, n))], canaries=can("rt"))
    ctx.check("CodecTrace", [rtscen(t, fmts=["wkt", "geojson"], allowempty=True) for t in EMPTY], known=lambda e, d:
              ctx.listed("empty-member") if "not read back" in d else None)
    return ctx.finish("model_checking", "geometries of all types, dimensions, nesting and emptiness, features and collections with members, arbitrary doubles, each "
                      "written and read back in all formats; decided by CodecTrace.tla")
