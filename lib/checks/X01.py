"""X01: the same histories of calls in every build; ReprTrace.tla judges the rows of answers."""
import concurrent.futures, hashlib, json
import vlib, relgen, reprgen, locgen, searchgen, seriesgen, codecgen, codeccheck, owngen, accgen, envgen
from vlib import pgen, Scen
from checks import I03

BUILDS = ["noamalga", "noatomics", "ixfloat64", "static", "clang", "nouint128", "uchar", "O0"]


def norm(cmd, o, wide):
    "what must not depend on the build (wide: the index rectangles may)"
    w = cmd.split()
    c = w[0].lstrip("!")
    if c == "ifempty": c = w[2]
    if not isinstance(o, dict): return o
    o = dict(o)
    if c in ("st",):
        o["h"] = [[s, f] + ([] if wide else [m]) for s, a, f, m in o["h"]]
    if "er" in o: o.pop("a", None)      # which block an object is in
    if wide:
        for k in ("bytes", "mem", "lv", "n") if c in ("st", "series", "memsize", "alloc", "freeall", "free", "sers") else ("lv",): o.pop(k, None)
        if c == "sers": o["s"] = [[s["slot"], [[x["np"], x["spread"]] for x in s["series"]]] for s in o["s"]]
        if c == "nearest": o["h"] = sorted(o["h"]) if int(w[5]) == 0 else 0
        if c == "acc": o = json.loads(json.dumps(o), object_hook=lambda d: {k: v for k, v in d.items() if k not in ("lv", "hp")})
    return o


def run(ctx):
    q = ctx.quick
    n = 1 if q else 12
    r = ctx.rng
    sc = []
    sc += [reprgen.reprscen(t) for t in pgen(r, reprgen.one_repr, 150*n, 6)] + [reprgen.indexscen(t) for t in pgen(r, reprgen.one_index, 50*n)]
    sc += [locgen.locscen(*t) for t in pgen(r, locgen.one_loc, 100*n, 24)]
    sc += [searchgen.pairscen(t) for t in pgen(r, searchgen.one_pairsearch, 75*n, .3)] + [searchgen.collscen(t) for t in pgen(r, searchgen.one_coll, 30*n)]
    sc += [I03.scenof(t) for t in pgen(r, I03.one, 75*n, .3)]
    sc += [seriesgen.measscen(t) for t in pgen(r, seriesgen.one_meas, 150*n)] + [seriesgen.levelscen(False)(t) for t in pgen(r, seriesgen.one_level, 75*n)]
    sc += [seriesgen.treescen(t) for t in pgen(r, seriesgen.one_tree, 75*n)]
    for f in codecgen.FORMATS:
        sc += [codecgen.decscen(t) for t in pgen(r, codecgen.one_input, 125*n, f)] + [codecgen.decscen(t) for t in pgen(r, codeccheck.one_edited, 30*n, f, 6) for t in t]
    # the separate dependencies are sources of their own: what they accept and refuse
    for f, k in (("geojson", 25), ("wkt", 8)):
        sc += [codecgen.decscen(t) for t in pgen(r, codeccheck.one_edited, k*n, f, 60) for t in t] + [codecgen.decscen(t) for t in pgen(r, codeccheck.one_tokens, 40*k*n, f)]
    sc += [codecgen.encscen(t) for t in pgen(r, codecgen.one_source, 150*n)] + [codecgen.rtscen(t) for t in pgen(r, codecgen.one_source, 100*n)]
    sc += [codecgen.decscen(t) for t in pgen(r, codecgen.one_numread, 250*n)] + [codecgen.numwscen(t) for t in pgen(r, codecgen.one_numwrite, 75*n)]
    sc += [codecgen.gbinscen(t) for t in pgen(r, codecgen.one_gbin, 75*n)] + [codecgen.autoscen(t) for t in pgen(r, codecgen.one_auto, 75*n)]
    sc += [accgen.accscen(t) for t in pgen(r, accgen.one_prog, 150*n)] + [accgen.nonescen()]
    for h in owngen.mixed(ctx, 16*n, 16, ["all", "poly", "nest"]): sc.append(owngen.scen(r, h))
    for h in owngen.mixed(ctx, 8*n, 12, ["all"], faults=(0, 0, 1, 2, 3)): sc.append(owngen.scen(r, h, 0))
    for _ in range(2):
        for h in envgen.histories(ctx, 20*n, 10, r.sample(envgen.SHAPES, 3), r.sample([3, 4, 8, 32, 33, 40], 3), slots=3): sc.append(envgen.envscen(h, r))
    r.shuffle(sc)
    with concurrent.futures.ThreadPoolExecutor(8) as ex: list(ex.map(ctx.build, ["main"] + BUILDS))
    rows = {}
    for v in ["main"] + BUILDS:
        for s, outs in ctx.drive(ctx.build(v), sc, 60, 60): rows.setdefault(id(s), {})[v] = outs

    def row(s, o, wide): return [hashlib.sha256(json.dumps(norm(c, x, wide), sort_keys=True).encode()).hexdigest()[:20] for c, x in zip(s.cmds, o)]

    def event(s, got):
        evs = []
        for wide, vs in ((False, [v for v in ["main"] + BUILDS if v != "ixfloat64"]), (True, ["main", "ixfloat64"])):
            evs.append(dict(k="same", rows=[row(s, got[v], wide) for v in vs if v in got]))
        return evs
    evs, of = [], []
    for s in sc:
        if "main" not in rows.get(id(s), {}): continue
        for e in event(s, rows[id(s)]):
            evs.append(e)
            of.append(s)
    cans = []
    for e in r.sample(evs, 12):
        if len(e["rows"]) < 2: continue
        e = json.loads(json.dumps(e))
        x = r.choice(e["rows"])
        x[r.randrange(len(x))] += " "
        cans.append(e)
    for e in evs: ctx.distinct.add(hash(json.dumps(e["rows"][0])))
    t = json.dumps(evs[0])
    ctx.samples.append(t[:1500])
    rej = ctx.validate("ReprTrace", evs, cans)
    for i in sorted(rej)[:6]:
        s = of[i]
        got = {}
        try:
            for v in ["main"] + BUILDS: got[v] = ctx.drive_raw(ctx.build(v), s.cmds, 30)
        except vlib.Death as d:
            ctx.violation(f"the library {d.what}", dict(cmds=s.cmds, stderr=d.err[-2000:]))
            continue
        again = event(s, got)
        if ctx.validate("ReprTrace", again, (), shards=1):
            m = [(v, c) for v in BUILDS for c, a, b in zip(s.cmds, row(s, got["main"], v == "ixfloat64"), row(s, got[v], v == "ixfloat64")) if a != b]
            ctx.violation(f"builds differ: {s.label}: {m[:3]}", dict(kind="builds", cmds=s.cmds, detail=[dict(build=v, cmd=c) for v, c in m[:5]]))
        else:
            ctx.notes.append("unrepeatable difference ignored: " + s.label)
    ctx.assumptions += ["digests of 80 bits stand for answers", "compilers and options of this machine", "the wide build may differ in index rectangles, memory, and the order of equally distant segments"]
    return ctx.finish("model_checking", f"scenarios of all families (relations, locations, searches, nearest, measures, rectangles, five formats read and written, hostile inputs, numbers, "
                      f"ownership with failing allocations, accessors, settings) in the builds main, {', '.join(BUILDS)}; all answers of a scenario compared", dict(builds=1+len(BUILDS)))
