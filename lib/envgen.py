"""Histories of environment settings (Env.tla, EnvGen.tla, EnvTrace.tla)."""
import json, re, struct
from vlib import Scen, Infra

FMT = ["wkb", "geobin", "hex", "wkt", "geojson"]
SHAPES = ["ring", "oring", "line"] + [f"{s}.{f}" for s in ("gline", "gpoly", "hpoly", "ml", "gc") for f in FMT]


def histories(ctx, n, depth, shapes, sizes, opts=0, spreads=(0, 1, 2, 3, 4096, 4097, 20), slots=3, bfs=False):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    cfg = f"""SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = {depth}
  Slots = {{{', '.join(map(str, range(1, slots+1)))}}}
  Shapes = {q(shapes)}
  Sizes2 = {{{', '.join(map(str, sizes))}}}
  Opts = {opts}
  Spreads = {{{', '.join(map(str, spreads))}}}
  Emitting = TRUE
INVARIANTS Sane Emit
""" + ("PROPERTY Keeps\n" if bfs else "")
    name = f"env_{abs(hash(cfg))}.cfg"
    with open(ctx.path(name), "w") as f:
        f.write(cfg)
    extra = [] if bfs else ["-simulate", f"num={n}", "-depth", str(depth+2), "-seed", str(ctx.rng.getrandbits(30))]
    rc, out = ctx.tlc("EnvGen", ctx.path(name), workers=8 if bfs else 1, timeout=600, xmx="12g", extra=extra)
    if rc:
        raise Infra("EnvGen: " + out[-1500:])
    if bfs:
        g, d = ctx.tlc_counts(out)
    else:
        m = re.search(r"(\d+) states checked", out)
        g = d = int(m.group(1)) if m else 0
    ctx.stats["states"] += d
    ctx.stats["transitions"] += g
    return [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"HIST\|(.*)"$', out, re.M)]


def opt(kind, sp): return kind + (f":{sp}" if sp else "")


def envscen(h, rng):
    "replay of a history; objects of n positions always have the same n positions"
    pos = {}

    def P(n, closed):
        if n not in pos:
            R = 50 if n < 20 else 1000
            p = [(rng.randint(-R, R), rng.randint(-R, R)) for _ in range(n-1)]
            while n > 1 and p[-1] == p[0]: p[-1] = (rng.randint(-R, R), rng.randint(-R, R))
            pos[n] = p
        p = pos[n]
        return p + [p[0] if closed else (p[0][0]+1, p[0][1])]
    txt = lambda p: f"{len(p)} " + " ".join("%d %d" % q for q in p)
    val = lambda: rng.choice([8e5, 1e21, -2e-7, 1e-7, -5e15, 0.1, 100000, 12300000, 4e10, 2e6] if rng.random() < .97 else [3e300, 123456789e-12, rng.uniform(-1e9, 1e9)])
    bits = lambda x: struct.pack("<d", x).hex()
    # the text that is written after each step
    if rng.random() < .7: wkb = "0101000000" + bits(val()) + bits(val())
    else: wkb = "01ea030000" + "02000000" + "".join(bits(v) for v in [val()] + [3.0]*5)
    cmds = [f"parse 60 wkb default {wkb}", "dump 60"]
    at, sizes = [], set()
    for e in h:
        s, op = e["s"], e["op"]
        if op == "ix": cmds.append(f"env ix {e['kind']}")
        elif op == "spread": cmds.append(f"env spread {e['n']}")
        elif op == "fixed": cmds.append(f"env fixed {e['n']}")
        elif op in ("clone", "copy"): cmds.append(f"{op} {s} {e['d']}")
        elif op == "free": cmds.append(f"free {s}")
        else:
            sh, _, f = e["shape"].partition(".")
            n, ix = e["n"], opt(e["kind"], e["d"])
            sizes.add((n, sh))
            if sh == "line": cmds.append(f"line {s} {ix} {txt(P(n, False))}")
            elif sh == "ring": cmds.append(f"ring {s} {ix} {txt(P(n, True))}")
            elif sh == "oring": cmds.append(f"ring {s} {ix} {txt(P(n, False))}")
            else:
                # made with another option, written, and read with this one
                o = rng.choice(["none", "ystripes:2", "natural:3"])
                if sh in ("gline", "ml"): cmds.append(f"line 50 {o} {txt(P(n, False))}")
                else: cmds.append(f"ring 50 {o} {txt(P(n, True))}")
                if sh == "gline": cmds.append("gline 51 50")
                elif sh == "ml": cmds.append("ml 51 2 50 50")
                else:
                    cmds += ["poly 52 50 " + ("1 50" if sh == "hpoly" else "0"), "gpoly 51 52", "free 52"]
                if sh == "gc": cmds += ["pt 53 1 1", "gc 52 2 51 53", "free 53", "free 51", f"via {s} 52 {f} {ix}", "free 52", "free 50"]
                else: cmds += [f"via {s} 51 {f} {ix}", "free 51", "free 50"]
        at.append(len(cmds))
        cmds += ["sers", "write 60 wkt -1", "write 60 geojson -1"]
    twins = []
    for n, sh in sorted(sizes):
        for kind, sp in (("none", 2), ("natural", 16), ("ystripes", 16), ("natural", 3), ("ystripes", 3), ("natural", 2), ("ystripes", 2)):
            c = (sh == "ring" or sh in ("gpoly", "hpoly", "gc"))
            ring = c or sh == "oring"
            cmds.append(f"{'ring' if ring else 'line'} 55 {kind}:{sp} {txt(P(n, c))}")
            twins.append((len(cmds), kind, sp))
            cmds += ["sers", "free 55"]
    cmds += ["env ix natural", "env spread 16", "env fixed 0", "freeall"]

    def ev(o):
        def held(x): return [s for s in x["s"] if s["slot"] < 50]
        tw = []
        for j, kind, sp in twins:
            x = next(s for s in o[j]["s"] if s["slot"] == 55)["series"][0]
            tw.append(dict(x, kind=kind, sp=sp))
        return [dict(k="env", h=h, g=o[1]["g"], twin=tw,
                     o=[dict(s=held(o[j]), t=[o[j+1]["b"][:o[j+1]["ret"]], o[j+2]["b"][:o[j+2]["ret"]]]) for j in at])]
    return Scen(cmds, ev, "settings " + json.dumps([[v for v in e.values() if v not in ("", 0)] for e in h])[:300])


def canaries(evs, rng):
    import copy
    out = []
    for e in evs:
        e = copy.deepcopy(e)
        k = rng.randrange(4)
        js = [j for j in range(len(e["h"])) if e["o"][j]["s"]]
        if k == 0:
            j = rng.randrange(len(e["h"]))
            i = rng.randrange(2)
            e["o"][j]["t"][i] = list(b"POINT(1 2)") if i == 0 else list(b'{"type":"Point","coordinates":[1,2]}')
        elif not js: continue
        else:
            s = rng.choice(e["o"][rng.choice(js)]["s"])
            if not s["series"]: continue
            x = rng.choice(s["series"])
            if k == 1: x["spread"] += 1
            elif k == 2: x["lv"] = x["lv"] + [3]
            else: x["mem"] += 8
        out.append(e)
    return out
