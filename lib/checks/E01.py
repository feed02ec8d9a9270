"""E01: histories of environment settings (EnvGen.tla) replayed into the library; records judged by EnvTrace.tla."""
from envgen import *


def run(ctx):
    r = ctx.rng
    hs = histories(ctx, 0, 2 if ctx.quick else 3, ["ring", "line", "gpoly." + r.choice(FMT)] if ctx.quick else ["ring"], [5, 33] if ctx.quick else [33], opts=0 if ctx.quick else 1,
                   spreads=(0, 3, 4096, 4097) if ctx.quick else (1, 3, 4097), slots=2, bfs=True)
    if ctx.quick: hs = r.sample(hs, min(len(hs), 600))
    n = 400 if ctx.quick else 12000
    for _ in range(10):
        hs += histories(ctx, n//10, 12, r.sample(SHAPES, 3), r.sample([3, 4, 6, 8, 9, 31, 32, 33, 40, 100], 3), slots=4)
    sc = [envscen(h, r) for h in hs]
    ctx.stats["behaviours"] = len(hs)
    b = ctx.build("main")
    cs = canaries([s.events(ctx.drive_raw(b, s.cmds))[0] for s in r.sample(sc, 40)], r)
    ctx.check("EnvTrace", sc, canaries=cs, per_batch=40)
    ctx.check("EnvTrace", sc[-n//10:], variants=("san",), per_batch=20)
    return ctx.finish("model_checking", "all histories of two (three) settings and constructions from a small alphabet, and random histories of twelve over rings, lines and the "
                      "geometries of five formats; after each step: spread, levels and memory of all series held, and the texts of a geometry")
