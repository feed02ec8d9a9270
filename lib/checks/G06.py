from relcheck import *


def run(ctx):
    n = 6000 if ctx.quick else 80000
    sc = collpairs(ctx, n, ALL)
    can = canaries(ALL)
    wrap = lambda g: {"t": 4, "c": [{"t": 0}, g]}
    can += [dict(c, a=wrap(c["a"])) for c in can[:16]] + [dict(c, b=wrap(c["b"])) for c in can[:16]]
    ctx.check("RelateTrace", sc, canaries=can)
    return ctx.finish("model_checking", "pairs with a multi geometry or (nested) collection on either side, with empty members; "
                      "decided member by member with Planar.tla")
