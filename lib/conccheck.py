"""Threads: programs and schedules from ConcGen.tla, replayed by conc.c, judged by ConcTrace.tla."""
import json, re
from vlib import Scen, Infra

KINDS = "ring line poly0 poly1 poly2 pt ptz empty err line_z poly_z gpoly ml mpoly gc gcgc feat fc mp".split()
HOLDERS = "poly1 poly2 gpoly poly_z line_z ml mpoly gc gcgc feat fc".split()


def design(ctx, d, threads, ops, emit=False, deep=True, n=0, timeout=600):
    "explore the design; returns TLC's result"
    name = f"conc_{abs(hash((d, threads, ops, emit, n, deep)))}.cfg"
    with open(ctx.path(name), "w") as f:
        f.write(f'''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {threads}
  Ops = {ops}
  Design = "{d}"
  Emitting = {"TRUE" if emit else "FALSE"}
  Deep = {"TRUE" if deep else "FALSE"}
INVARIANTS NoBad AllFreed{" Emit" if emit else ""}
''')
    extra = ["-simulate", f"num={n}", "-depth", "200", "-seed", str(ctx.rng.getrandbits(30))] if n else []
    return ctx.tlc("ConcGen", ctx.path(name), workers=1 if n else 8, timeout=timeout, xmx="16g", extra=extra)


def right(ctx, d, threads, ops):
    rc, out = design(ctx, d, threads, ops)
    if rc: raise Infra(f"the design {d} is rejected: " + out[-1500:])
    g, n = ctx.tlc_counts(out)
    ctx.stats["states"] += n
    ctx.stats["transitions"] += g
    return n


def wrong(ctx, ds, threads=2, ops=3):
    for d in ds:
        rc, out = design(ctx, d, threads, ops)
        if "is violated" not in out: raise Infra("ConcGen accepts the mistake: " + d)
        ctx.stats["canaries"] += 1


def schedules(ctx, threads, ops, n=0, d="code"):
    "programs and schedules: all of them, or n at random"
    rc, out = design(ctx, d, threads, ops, True, True, n)
    if rc: raise Infra("ConcGen: " + out[-1500:])
    m = re.search(r"(\d+) states checked", out)
    k = ctx.tlc_counts(out)[1] or (int(m.group(1)) if m else 0)
    ctx.stats["states"] += k
    ctx.stats["transitions"] += k
    return [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'^"HIST\|(.*)"$', out, re.M)]


def spell(rng, p):
    "a thread's program: each reading is some query, a copy, or a new object that holds this one"
    return "".join(rng.choice("0123456789kx") if c == "r" else c for c in p) or "0"


def scen(rng, x, kind, jitter=False):
    progs = [spell(rng, p) for p in x["p"]]
    s = "".join(map(str, x["s"]))
    if jitter:  # the real objects have more parts than the model's
        s = "".join(c * rng.choice([1, 1, 1, 2]) for c in s) + "".join(rng.choice("123"[:len(progs)]) for _ in range(12))
    cmd = f"{kind} {len(progs)} {' '.join(progs)} {s or '-'}"
    return Scen([cmd], lambda o: [dict(k="conc", n=o[0]["n"], live=o[0]["live"], keep=o[0]["keep"], s=o[0]["s"])], "threads: " + cmd)


def canaries():
    "runs of other designs, which have to be rejected (t lets go of block 1, which holds block 2; both threads had one handle of it)"
    def ev(*steps, n=2): return dict(k="conc", n=n, live=[1, 2], keep=[], s=[list(x) for x in steps])
    def rmw(t, mo, b=1): return ("rmw", t, b, 0, 3, mo)
    def rd(t, b=1): return ("r", t, b, 8, 40, 0)
    def wr(t, b=1): return ("w", t, b, 50, 53, 0)
    def fence(t): return ("fence", t, 0, 0, 0, 2)
    def free(t, b): return ("free", t, b, 0, 0, 0)
    def end(t): return (fence(t), rd(t), rmw(t, 3, 2), fence(t), free(t, 2), free(t, 1))
    plain = [("r", 1, 1, 0, 3, 0), ("w", 1, 1, 0, 3, 0), ("r", 2, 1, 0, 3, 0), ("w", 2, 1, 0, 3, 0)]
    good = ev(rd(1), rmw(1, 3), rd(2), rmw(2, 3), *end(2))
    bad = [
        ev(rd(1), rmw(1, 3), rmw(2, 3), fence(2), rd(2), rmw(2, 3, 2), fence(2), free(2, 2)),      # never freed
        ev(rd(1), rmw(1, 3), rmw(2, 3), *end(2), free(2, 1)),                       # freed twice
        ev(rd(1), rmw(1, 3), rmw(2, 3), *end(2), rd(1)),                            # used afterwards
        ev(rd(1), rmw(1, 0), rmw(2, 3), *end(2)),                                   # relaxed letting go
        ev(rd(1), rmw(1, 3), rmw(2, 3), *(x for x in end(2) if x[0] != "fence")),                            # no fence
        ev(rd(1), rd(2), *plain, *end(2)),                                          # plain counting
        ev(rd(1), wr(1), rd(2), wr(2), rmw(1, 3), rmw(2, 3), *end(2)),              # a cache filled in while reading
        ev(rd(1), rmw(1, 0), wr(2), rmw(2, 3), rmw(1, 3), rmw(1, 3), *end(1)),      # written while others hold it, and read
        ev(("r", 1, 0, 0, 3, 0), ("w", 2, 0, 0, 3, 0), rd(1), rmw(1, 3), rmw(2, 3), *end(2)),      # a static variable
    ]
    bad[7]["s"].insert(1, ["r", 1, 1, 50, 53, 0])
    return good, bad
