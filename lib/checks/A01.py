"""A01: programs of constructors; every accessor's record is judged by AccessTrace.tla."""
from vlib import pgen
from accgen import *


def run(ctx):
    n = 2500 if ctx.quick else 60000
    sc = [accscen(t) for t in pgen(ctx.rng, one_prog, n)]
    ctx.check("AccessTrace", sc + [nonescen()], canaries=acccanaries(ctx), per_batch=100)
    ctx.check("AccessTrace", sc[::10] + [nonescen()], variants=("san",), per_batch=25)
    return ctx.finish("model_checking", "programs of up to 16 constructor calls of all kinds, with absent rings, any number of extra coordinates and parts freed "
                      "before; all accessors of some of the objects, at all indexes from -2 to two past the end and both ends of int, and of no object at all")
