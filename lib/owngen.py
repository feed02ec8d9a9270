"""Histories of objects: TLC makes them (OwnGen.tla), this turns them into
driver commands and the observations into events for OwnTrace.tla."""
import json, math, re, struct
from vlib import Infra, Scen


def bits(x): return struct.pack(">d", x).hex()
def xy(ps): return f"{len(ps)} " + " ".join(f"{x} {y}" for x, y in ps)


def star(rng, n, lo=3, hi=60):
    "a simple ring with n different positions"
    ps = []
    for i in range(n):
        a = 2*math.pi*(i+rng.random()*.8)/n
        r = rng.uniform(lo, hi)
        ps.append((round(1000*r*math.cos(a))//10, round(1000*r*math.sin(a))//10))
    return ps + [ps[0]]


def path(rng, n): return [(rng.randint(-50, 50), rng.randint(-50, 50)) for _ in range(n)]


class Content:
    "what the names of templates stand for in one history"
    def __init__(self, rng):
        r = self.rng = rng
        c = self.cmd = {}
        ixs = ["none", "natural", "ystripes", "default", "natural:4", "ystripes:8", "default:3", "none:4"]
        c["r1"] = f"ring {{d}} {r.choice(ixs)} {xy(star(r, r.randint(3, 9)))}"
        c["r2"] = f"ring {{d}} {r.choice(['ystripes', 'ystripes:6'])} {xy(star(r, r.randint(33, 80)))}"
        c["r3"] = f"ring {{d}} {r.choice(['natural', 'natural:3', 'default'])} {xy(star(r, r.randint(33, 120)))}"
        c["l1"] = f"line {{d}} {r.choice(ixs)} {xy(path(r, r.randint(2, 7)))}"
        c["l2"] = f"line {{d}} {r.choice(['natural', 'natural:5', 'default'])} {xy(path(r, r.randint(33, 100)))}"
        c["pt"] = f"pt {{d}} {r.randint(-9, 9)} {r.randint(-9, 9)}"
        c["ptz"] = f"ext {{d}} pt {r.choice(['z', 'm'])} 3 4 {bits(7.5)}" if r.random() < .6 else f"ext {{d}} pt zm 3 4 {bits(7.5)} {bits(-2)}"
        c["mp"] = f"mp {{d}} {xy(path(r, r.choice([0, 1, 3, 70, 130])))}"
        c["mpz"] = f"ext {{d}} mp z {xy(path(r, 3))} 3 {bits(1)} {bits(2)} {bits(3)}"
        c["em"] = f"empty {{d}} {r.randint(1, 7)}"
        for t in ("t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "bad"):
            c[t] = getattr(self, t)()
        self.json = {t: bytes.fromhex(c[t].split()[-1]).count(b'"type"') for t in ("t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8")}

    def parse(self, fmt, text, ix=None):
        b = text if isinstance(text, bytes) else text.encode()
        ix = ix or self.rng.choice(["none", "natural", "ystripes", "default"])
        return f"parse {{d}} {self.rng.choice([fmt, 'auto']) if fmt != 'geobin' else fmt} {ix} {b.hex()}"

    # texts -----------------------------------------------------------------
    def P(self, ps, z=False): return "(" + ",".join(f"{x} {y}" + (f" {self.rng.randint(0, 9)}" if z else "") for x, y in ps) + ")"
    def J(self, ps, z=False): return [[x, y] + ([self.rng.randint(0, 9)] if z else []) for x, y in ps]
    def sq(self, x, y, s): return [(x, y), (x+s, y), (x+s, y+s), (x, y+s), (x, y)]
    def big(self): return self.rng.choice([self.sq(0, 0, 30), star(self.rng, self.rng.choice([5, 20, 40]), 40, 60)])

    def t1(self):
        r, a, b, l = self.rng, self.big(), self.sq(3, 3, 5), path(self.rng, self.rng.choice([2, 40]))
        if r.random() < .5:
            return self.parse("wkt", f"GEOMETRYCOLLECTION(POINT(1 2),LINESTRING{self.P(l)},POLYGON({self.P(a)},{self.P(b)}))")
        return self.parse("geojson", json.dumps({"type": "GeometryCollection", "geometries": [{"type": "Point", "coordinates": [1, 2]},
                          {"type": "LineString", "coordinates": l}, {"type": "Polygon", "coordinates": [a, b]}], **({"x": [1, "y"]} if r.random() < .5 else {})}))

    def wkbpts(self, ps): return struct.pack("<I", len(ps)) + b"".join(struct.pack("<dd", *p) for p in ps)
    def h(self, t): return b"\1" + struct.pack("<I", t)

    def t2(self):
        r, a, b, c = self.rng, self.big(), self.sq(3, 3, 5), self.sq(100, 100, 5)
        k = r.random()
        if k < .35: return self.parse("wkt", f"MULTIPOLYGON(({self.P(a)},{self.P(b)}),({self.P(c)}))")
        if k < .65: return self.parse("geojson", json.dumps({"type": "MultiPolygon", "coordinates": [[a, b], [c]]}))
        w = self.h(6) + struct.pack("<I", 2) + self.h(3) + struct.pack("<I", 2) + self.wkbpts(a) + self.wkbpts(b) + self.h(3) + struct.pack("<I", 1) + self.wkbpts(c)
        return self.parse("wkb", w) if r.random() < .5 else self.parse("hex", w.hex())

    def t3(self):
        r, a, b = self.rng, path(self.rng, self.rng.choice([3, 50])), path(self.rng, 2)
        k = r.random()
        if k < .35: return self.parse("wkt", f"MULTILINESTRING({self.P(a)},{self.P(b)})")
        if k < .65: return self.parse("geojson", json.dumps({"type": "MultiLineString", "coordinates": [a, b], "bbox": [1, 2, 3, 4]}))
        return self.parse("wkb", self.h(5) + struct.pack("<I", 2) + self.h(2) + self.wkbpts(a) + self.h(2) + self.wkbpts(b))

    def t4(self):
        r, a = self.rng, path(self.rng, self.rng.choice([3, 50]))
        k = r.random()
        if k < .4: return self.parse("wkt", f"LINESTRING {r.choice('ZM')} {self.P(a, True)}")
        if k < .7: return self.parse("geojson", json.dumps({"type": "LineString", "coordinates": self.J(a, True)}))
        return self.parse("geojson", json.dumps({"type": "Feature", "geometry": {"type": "LineString", "coordinates": self.J(a, r.random() < .5)}, "properties": {"a": 1}, "id": 7}))

    def t5(self):
        r, a, b = self.rng, self.big(), self.sq(3, 3, 5)
        if r.random() < .5: return self.parse("wkt", f"POLYGON Z ({self.P(a, True)},{self.P(b, True)})")
        return self.parse("geojson", json.dumps({"type": "Feature", "geometry": {"type": "Polygon", "coordinates": [a, b]}, "properties": {"a": "b"}, "bbox": [0, 0, 1, 1]}))

    def t6(self):
        a = path(self.rng, 3)
        if self.rng.random() < .5:
            return self.parse("wkt", f"GEOMETRYCOLLECTION(LINESTRING Z{self.P(a, True)},POINT(3 4),GEOMETRYCOLLECTION(POINT(1 1),POLYGON({self.P(self.big())})))")
        return self.parse("geojson", json.dumps({"type": "GeometryCollection", "geometries": [{"type": "LineString", "coordinates": self.J(a, True)}, {"type": "Point", "coordinates": [3, 4]},
                          {"type": "GeometryCollection", "geometries": [{"type": "Point", "coordinates": [1, 1]}, {"type": "Polygon", "coordinates": [self.big()]}]}]}))

    def t7(self):
        a, b = self.big(), path(self.rng, 4)
        return self.parse("geojson", json.dumps({"type": "FeatureCollection", "features": [
            {"type": "Feature", "geometry": {"type": "Polygon", "coordinates": [a]}, "properties": {"p": 1}, "id": "x"},
            {"type": "Feature", "geometry": {"type": "LineString", "coordinates": b}, "properties": {"q": [1, 2, None]}}], **({"n": "m"} if self.rng.random() < .5 else {})}))

    def t9(self):
        "GeoBIN: a collection of a feature and a collection"
        g = lambda k, j, rest: bytes([k, 0]) + j + b"\0" + rest
        pt, ring = self.h(1) + struct.pack("<dd", 1, 2), self.h(3) + struct.pack("<I", 1) + self.wkbpts(self.big())
        n = struct.pack("<I", 2)
        return self.parse("geobin", g(4, b'{"a":1}', n + g(3, b'{"id":1,"properties":{}}', pt) + g(4, b"", n + g(3, b'{"b":[]}', ring) + g(3, b"", pt))))

    def t8(self):
        ps = path(self.rng, self.rng.choice([1, 5, 64, 150]))
        if self.rng.random() < .5: return self.parse("wkt", "MULTIPOINT Z " + self.P(ps, True))
        return self.parse("geojson", json.dumps({"type": "MultiPoint", "coordinates": ps, "k": "v"}))

    def bad(self):
        f, t = self.rng.choice([("wkt", "POLYGON((0 0,1 1))"), ("wkt", "LINESTRING(0 0,1 1"), ("geojson", '{"type":"FeatureCollection","features":[{"type":"Feature","geometry":{"type":"Point","coordinates":[1,2]},"properties":{"a":1}},5]}'),
                                ("geojson", '{"type":"MultiPolygon","coordinates":[[[[0,0],[9,0],[9,9],[0,0]]],[[[0,0],[1,0],[1,1]]]]}'),
                                ("geojson", '{"type":"GeometryCollection","geometries":[{"type":"Point","coordinates":[1,2]},{"type":"LineString","coordinates":[[1,2]]}]}'), ("wkt", "GEOMETRYCOLLECTION(POINT(1 2),LINESTRING(1 2,3 4),POINT(x))"),
                                ("wkb", self.h(7) + struct.pack("<I", 2) + self.h(1) + struct.pack("<dd", 1, 2) + self.h(2) + struct.pack("<I", 3)),
                                ("hex", "0101000000000000000000F03F00000000000000"), ("geobin", b"\x02\0\0\x01\1\1\0\0\0")])
        return self.parse(f, t)

    def make(self, e):
        a, d, x, r = e["a"], e["d"], e["x"], self.rng
        l = f"{len(a)} " + " ".join(map(str, a))
        if x == "poly": return f"poly {d} {a[0]} {len(a)-1} " + " ".join(map(str, a[1:]))
        if x in ("gline", "gpoly"): return f"{x} {d} {a[0]}"
        if x in ("ml", "mpoly", "gc"): return f"{x} {d} {l}"
        # extra coordinates: too few, and too many, of them
        dims, n = self.zz.setdefault(x, (r.choice(["z", "m", "zm"]), r.choice([0, 1, 4, 9])))
        xs = f"{n} " + " ".join(bits(i+.5) for i in range(n))
        if x in ("zline", "zpoly"): return f"ext {d} {x[1:]} {dims} {a[0]} {xs}"
        return f"ext {d} {x[1:]} {dims} {l} {xs}"
    zz = None


def histories(ctx, n, depth, slots=6, tpls=None, compose=None, ops=None, faults=(0,), maxargs=3, weight=20, seed=None, bfs=False, timeout=600):
    "n histories (all of them if bfs) of OwnGen, as lists of operations"
    tpls = tpls or "r1 r2 r3 l1 l2 pt ptz mp mpz em t1 t2 t3 t4 t5 t6 t7 t8 t9 bad".split()
    compose = compose or "poly gline gpoly zline zpoly ml zml mpoly zmpoly gc".split()
    ops = ops or "new clone copy member cast free".split()
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    cfg = f"""SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = {{{', '.join(map(str, range(1, slots+1)))}}}
  Depth = {depth}
  Tpls = {q(tpls)}
  Compose = {q(compose)}
  MaxArgs = {maxargs}
  MaxWeight = {weight}
  Faults = {{{', '.join(map(str, faults))}}}
  Ops = {q(ops)}
  Emitting = TRUE
INVARIANTS Sane Emit
"""
    name = f"own_{abs(hash(cfg))}.cfg"
    with open(ctx.path(name), "w") as f:
        f.write(cfg)
    if bfs:
        rc, out = ctx.tlc("OwnGen", ctx.path(name), workers=8, timeout=timeout, xmx="12g")
        if rc:
            raise Infra("OwnGen: " + out[-1500:])
        g, d = ctx.tlc_counts(out)
        ctx.stats["states"] += d
        ctx.stats["transitions"] += g
        return [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"HIST\|(.*)"$', out, re.M)]
    import concurrent.futures
    seed = seed if seed is not None else ctx.rng.getrandbits(30)
    w = 8 if n >= 160 else 2

    def one(i):
        rc, out = ctx.tlc("OwnGen", ctx.path(name), workers=1, timeout=timeout,
                          extra=["-simulate", f"num={-(-n//w)}", "-depth", str(depth+2), "-seed", str(seed+i)])
        if rc:
            raise Infra("OwnGen: " + out[-1500:])
        m = re.search(r"(\d+) states checked", out)
        return [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"HIST\|(.*)"$', out, re.M)], int(m.group(1)) if m else 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, range(w)))
    ctx.stats["states"] += sum(r[1] for r in rs)
    ctx.stats["transitions"] += sum(r[1] for r in rs)
    return [h for r in rs for h in r[0]]


def command(C, e):
    d = e["d"]
    if e["op"] == "new": return C.cmd[e["x"]].format(d=d)
    if e["op"] == "make": return C.make(e)
    if e["op"] == "clone": return f"clone {d} {e['a'][0]}"
    if e["op"] == "copy": return f"copy {d} {e['a'][0]}"
    if e["op"] == "member": return f"member {d} {e['a'][0]} {e['x']} {e['i']}"
    if e["op"] == "cast": return f"as {d} {d} {e['x'][0]}"
    if e["op"] == "free": return f"free {d}"


def ev(e, o, st):
    return dict(op=e["op"], sl=e.get("sl", 0), d=e["d"], a=e["a"], x=e["x"], i=e["i"], ok=o.get("ok", 1), er=o.get("er", 0), addr=o.get("a", 0), nf=st["nf"],
                hd=st["h"], bytes=st["bytes"], blocks=st["blocks"], bf=st["bf"])


MIXES = dict(
    all={},
    poly=dict(tpls="r1 r2 r3 t2 t5".split(), compose="poly gpoly zpoly mpoly zmpoly".split()),
    line=dict(tpls="l1 l2 t3 t4".split(), compose="gline zline ml zml".split()),
    parts=dict(tpls="t1 t2 t3 t4 t5 t6 t7 t9".split(), compose=[]),
    nest=dict(tpls="pt r1 t1 t6 em".split(), compose=["gc"], maxargs=2),
    copies=dict(ops="new copy free cast".split(), maxargs=2),
    copyparts=dict(tpls="t1 t2 t3 t4 t5 t6 t7 t8 t9 r2 l2".split(), compose=["gc"], ops="new copy member free".split(), maxargs=2),
)


def mixed(ctx, n, depth, mixes, faults=(0,), slots=6):
    "n histories of each mix"
    import concurrent.futures
    seeds = [ctx.rng.getrandbits(30) for _ in mixes]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda a: histories(ctx, n, depth, slots=slots, faults=faults, seed=a[1], **MIXES[a[0]]), zip(mixes, seeds)))
    return [h for r in rs for h in r]


def refine(ctx, slots, ids, mem):
    "the counting design against Own, exhaustively; and that mistakes in it are seen"
    def run(mut, slots, ids, mem):
        name = f"rc_{abs(hash((mut, slots, ids, mem)))}.cfg"
        seq = lambda n: "{" + ", ".join(map(str, range(1, n+1))) + "}"
        with open(ctx.path(name), "w") as f:
            f.write(f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Slots = {seq(slots)}\n Ids = {seq(ids)}\n MaxMem = {mem}\n Mut = "{mut}"\nINVARIANTS Right Sound\n')
        return ctx.tlc("OwnRC", ctx.path(name), workers=8, timeout=800, xmx="12g")
    rc, out = run("none", slots, ids, mem)
    if rc:
        raise Infra("OwnRC does not refine Own: " + out[-1500:])
    g, d = ctx.tlc_counts(out)
    ctx.stats["states"] += d
    ctx.stats["transitions"] += g
    for mut in ("clone does not retain", "frees early", "keeps members", "no retain of second"):
        rc, out = run(mut, 2, 3, 2)
        if "is violated" not in out:
            raise Infra("OwnRC accepts the mistake: " + mut)
        ctx.stats["canaries"] += 1
    return d


def replay(ctx, hists, variants=("main",), run=1, per_batch=15, canaries=True):
    scens = [scen(ctx.rng, h, run) for h in hists]
    rej = ctx.check("OwnTrace", scens, variants=variants, env=dict(FOCUS=ctx.prop), group=lambda e: e["g"], per_batch=per_batch, timeout=120)
    if canaries:
        spoil(ctx, scens[:60])
    return rej


def spoil(ctx, scens):
    """Corrupted histories, which the specification must reject: a handle whose
    object changed, memory that was kept or given back too early, a copy that
    is the same object, ..."""
    bin_ = ctx.build("main")
    n, want = 0, dict(L01="fp bytes blocks bf", L03="fp bytes blocks bf ok", L04="fp bytes copy", A02="size")[ctx.prop].split()
    evs = []
    for s in scens:
        es = s.events(ctx.drive_raw(bin_, s.cmds))
        how = want[n % len(want)]
        idx = [i for i, e in enumerate(es) if e["hd"] and e["op"] not in ("start",)]
        if not idx:
            continue
        i = ctx.rng.choice(idx)
        e = json.loads(json.dumps(es[i]))
        if how == "fp":
            idx = [i for i in idx if es[i]["op"] in ("clone", "cast", "free")]
            if not idx: continue
            i = ctx.rng.choice(idx)
            e = json.loads(json.dumps(es[i]))
            e["hd"][-1][2] += 1
        elif how == "size":
            idx = [i for i in idx if es[i]["op"] == "new"]
            if not idx: continue
            i = idx[0]
            e = json.loads(json.dumps(es[i]))
            for x in e["hd"]: x[3] += 40
        elif how == "bytes":
            idx = [i for i in idx if es[i]["op"] == "clone" or es[i]["op"] == "cast"]
            if not idx: continue
            i = ctx.rng.choice(idx)
            e = json.loads(json.dumps(es[i]))
            e["bytes"] += ctx.rng.choice([-8, 8])
        elif how == "blocks": e["blocks"] = 0
        elif how == "bf": e["bf"] = 1
        elif how == "ok":
            idx = [i for i in idx if es[i]["op"] in ("new", "make") and es[i]["nf"] == 0 and es[i]["ok"]]
            if not idx: continue
            i = idx[0]
            e = dict(es[i], ok=0)
        elif how == "copy":
            idx = [i for i in idx if es[i]["op"] == "copy" and es[i]["ok"]]
            if not idx: continue
            i = idx[0]
            e = json.loads(json.dumps(es[i]))
            src = [x for x in e["hd"] if x[0] == e["a"][0]][0]
            e["addr"] = src[1]
        n += 1
        g = 10**6 + n
        evs.append([dict(x, g=g) for x in es[:i] + [e]])
    if n < 4:
        raise Infra("no corrupted histories")
    ev0, st = ctx.stats["events"], ctx.stats["traces"]
    flat = [x for es in evs for x in es]
    rej = ctx.validate("OwnTrace", flat, env=dict(FOCUS=ctx.prop), group=lambda e: e["g"], shards=2)
    ctx.stats["events"] = ev0
    got = {flat[i]["g"] for i in rej}
    miss = [es[0]["g"] for es in evs if es[0]["g"] not in got]
    if miss:
        raise Infra(f"OwnTrace accepted corrupted histories {miss}")
    ctx.stats["canaries"] += n


START = dict(op="start", sl=0, d=0, a=[], x="", i=0, ok=1, er=0, addr=0, nf=0, hd=[], bytes=0, blocks=0, bf=0)
N = [0]


def scen(rng, hist, run=1):
    C = Content(rng)
    C.zz = {}
    cmds, acts = ["freeall"], []
    held = set()
    for e in hist:
        f = e.get("f", 0)
        c = command(C, e)
        # the parser may leave up to 9 bytes unused after each JSON text it keeps
        if e["op"] == "new": e = dict(e, sl=9*C.json.get(e["x"], 0))
        if f:
            cmds += [f"fail {f} {run}", c, "st", f"iferr {e['d']}", "st", f"ifempty {e['d']} {c}", "st"]
            acts.append(("f", e))
        else:
            cmds += [c, "st"]
            acts.append(("o", e))
        if e["op"] == "free": held.discard(e["d"])
        elif e["op"] != "cast": held.add(e["d"])
    # in the end everything is freed, in some order
    rest = sorted(held)
    rng.shuffle(rest)
    for d in rest:
        cmds += [f"free {d}", "st"]
        acts.append(("o", dict(op="free", d=d, a=[d], x="", i=0)))
    N[0] += 1
    gid = N[0]

    def events(outs):
        evs, k = [dict(START, g=gid)], 1
        for kind, e in acts:
            if kind == "o":
                evs.append(ev(e, outs[k], outs[k+1]))
                k += 2
            else:
                evs.append(ev(e, outs[k+1], outs[k+2]))
                if outs[k+3].get("freed"):
                    evs.append(ev(dict(op="free", d=e["d"], a=[e["d"]], x="", i=0), {}, outs[k+4]))
                if not outs[k+5].get("skip"):
                    evs.append(ev(e, outs[k+5], outs[k+6]))
                k += 7
        for x in evs:
            x["g"] = gid
        return evs
    return Scen(cmds, events, "history: " + "; ".join(f"{e['op']} {e['x']} {e['a']}->{e['d']}" for _, e in acts)[:300])
