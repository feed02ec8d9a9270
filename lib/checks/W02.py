from codeccheck import *
EMPTY = [("wkb", "0105000000010000000102000000" + "00000000"), ("wkb", "0106000000010000000103000000" + "00000000")]


def run(ctx):
    n = 500 if ctx.quick else 9000
    sc = [encscen(t) for t in pgen(ctx.rng, one_source, n)] + [encscen(t, True) for t in pgen(ctx.rng, one_source, n // 4)]
    ctx.check("CodecTrace", sc, canaries=can("enc"))
    ctx.check("CodecTrace", [encscen(t, fmts=["wkt", "geojson"], allowempty=True) for t in EMPTY], known=lambda e, d:
              ctx.listed("empty-member") if bytes(e["b"]) in KNOWN else None)
    return ctx.finish("model_checking", "geometries of all types, dimensions, nesting and emptiness, features and collections with members, arbitrary doubles, each "
                      "written in all formats in both number notations; decided byte for byte by CodecTrace.tla")


KNOWN = (b"MULTILINESTRING(())", b"MULTIPOLYGON((()))", b'{"type":"MultiLineString","coordinates":[[]]}', b'{"type":"MultiPolygon","coordinates":[[[]]]}')
