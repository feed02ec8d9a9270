"""Inputs of the parsers: geometries in many spellings, and damaged ones."""
import json, random, struct
from vlib import Scen

FORMATS = ["wkb", "geobin", "hex", "wkt", "geojson"]
LINEAR = {2, 4}


# ---------------------------------------------------------------- numbers
def rdouble(rng):
    "any double, as a float"
    k = rng.random()
    if k < .3: return float(rng.randint(-180, 180))
    if k < .5: return round(rng.uniform(-180, 180), rng.randint(1, 15))
    if k < .6: return rng.choice([1.0, 2.0, 10.0, 5.0]) * 10.0 ** rng.randint(-300, 300)
    if k < .7: return rng.choice([-1, 1]) * 2.0 ** rng.randint(-1022, 1023) * rng.choice([1.0, 1 - 2**-53, 1 + 2**-52])
    if k < .8: return rng.choice([0.0, -0.0, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, 9007199254740993.0,
                                  4503599627370496.5, 123456789012345680.0, 1e21, 1e22, 1e23, 9.5e-7, 1e-6, 1e-7, 0.1, 0.3, 1/3, 123456.789e3])
    while True:
        d = struct.unpack("<d", rng.getrandbits(64).to_bytes(8, "little"))[0]
        if d == d and d not in (float("inf"), float("-inf")): return d


def numtext(rng, wkt, hard=False):
    k = rng.random()
    if not hard:
        if k < .55: return str(rng.randint(-99, 99))
        if k < .8: return "%d.%s" % (rng.randint(-180, 180), "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 6))))
        if k < .86: return rng.choice(["0", "-0", "0.0", "-0.0", "0e5", "1E2", "1e+2", "1e-2", "-1.5e1", "1.50", "100", "12e0", "0.000001", "1e00005", "10e-1"])
        if wkt and k < .9: return rng.choice([".5", "-.5", "007", "-01.5", "00"])
        return repr(rdouble(rng)).replace("inf", "1e400")
    if k < .17:
        return repr(rdouble(rng))
    if k < .2: return repr(tie(rng))
    if k < .3:  # around a double
        d = rdouble(rng)
        t = "%.*e" % (rng.randint(14, 30), d)
        return t
    if k < .55:  # half way between two doubles, exactly or nearly
        from fractions import Fraction
        import math
        d = abs(rdouble(rng))
        if not 1e-30 < d < 1e30: d = rng.uniform(1, 1000)
        h = (Fraction(d) + Fraction(math.nextafter(d, math.inf))) / 2
        n, q = h.numerator, 0
        while h.denominator > 1 and q < 200 and (h * 10**q).denominator != 1: q += 1
        v = h * 10**q
        if v.denominator != 1: return repr(d)
        s = str(v.numerator)
        k = rng.random()
        if k < .3: s, q = s + "1", q + 1
        elif k < .6: s, q = str(int(s + "0") - 1), q + 1
        elif k < .7: s, q = s + "0" * rng.randint(1, 30) + "1", None
        if q is None: return "%s.%se%d" % (s[0], s[1:], len(str(v.numerator)) - 1 - _q(h))
        k = rng.random()
        if k < .5 and q < len(s) and q: return s[:-q] + "." + s[-q:]
        return s + ("e%d" % -q if q else "")
    if k < .65:
        return "".join(rng.choice("123456789") if i == 0 else rng.choice("0123456789") for i in range(rng.randint(15, 45))) + (rng.choice(["", "e%d" % rng.randint(-300, 250)]))
    if k < .75:
        return rng.choice(["", "-"]) + "0." + "0" * rng.randint(0, 25) + "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 25)))
    if k < .85:
        return rng.choice(["", "-"]) + "%d.%de%d" % (rng.randint(0, 9), rng.randint(0, 10**12), rng.randint(-330, 309))
    if k < .9:
        return rng.choice(["1e400", "-1e400", "1e308", "1.8e308", "1.7976931348623157e308", "1.7976931348623159e308", "5e-324", "3e-324", "2e-324", "1e-400",
                           "2.2250738585072011e-308", "2.2250738585072014e-308", "9007199254740993", "9007199254740992.99", "0e999", "0.0e-999"])
    return "%d.%s" % (rng.randint(-180, 180), "".join(rng.choice("0123456789") for _ in range(rng.randint(14, 20))))


def _q(h):
    q = 0
    while (h * 10**q).denominator != 1: q += 1
    return q


# ---------------------------------------------------------------- geometries
def pos(rng, d, num): return [num() for _ in range(d)]


def rring(rng, d, num, n=None):
    n = n or rng.choice([3, 3, 4, 4, 5, 7])
    r = [pos(rng, d, num) for _ in range(n)]
    return r + [r[0][:]]


def rgeo(rng, num, depth=0, empties=True, big=False):
    "a geometry: dict(t, z, m, s, c)"
    t = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7] if depth < 2 else [1, 1, 2, 3, 4, 5, 6])
    z, m = rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1)])
    if t == 7:
        return dict(t=7, z=0, m=0, s=[], c=[rgeo(rng, num, depth+1, empties) for _ in range(rng.choice([0, 1, 2, 2, 3]))])
    d = 2+z+m
    n = lambda: rng.choice([0, 1, 1, 2, 3] if empties else [1, 1, 2, 3])
    line = lambda: [pos(rng, d, num) for _ in range(rng.choice([2, 2, 3, 5]))]
    poly = lambda: [rring(rng, d, num) for _ in range(rng.choice([1, 1, 2, 3]))]
    e = empties and rng.random() < .12
    if t == 1: s = [] if e else [pos(rng, d, num)]
    elif t == 2: s = [] if e else line()
    elif t == 3: s = [] if e else poly()
    elif t == 4: s = [pos(rng, d, num) for _ in range(n())]
    elif t == 5: s = [line() for _ in range(n())]
    else: s = [poly() for _ in range(n())]
    return dict(t=t, z=z, m=m, s=s, c=[])


# ---------------------------------------------------------------- WKT
WN = ["", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"]


def wkt(rng, g, plain=False):
    sp = (lambda: "") if plain else lambda: rng.choice(["", "", "", " ", "  ", "\t", "\n", "\r\n "])
    gap = (lambda: " ") if plain else lambda: rng.choice([" ", " ", " ", "  ", "\t", "\n ", " \r"])
    low = rng.random() < .3 and not plain

    def case(w):
        if plain: return w
        return w.lower() if low else "".join(c.lower() if rng.random() < .2 else c for c in w) if rng.random() < .2 else w

    def po(p): return gap().join(p)
    def li(l, par=False): return "(" + sp() + (sp() + "," + sp()).join(("(" + sp() + po(p) + sp() + ")") if par else po(p) for p in l) + sp() + ")"
    def nest(f, l): return "(" + sp() + (sp() + "," + sp()).join(f(x) for x in l) + sp() + ")"

    def go(g):
        zm = "ZM" if g["z"] and g["m"] else "Z" if g["z"] else "M" if g["m"] else ""
        if zm in ("Z", "ZM") and rng.random() < .4 and g["s"]: zm = ""
        w = case(WN[g["t"]]) + ((rng.choice(["", " ", " "]) if not plain else " ") + case(zm) if zm else "")
        t, s = g["t"], g["s"]
        if t == 7 and g["c"]: return w + sp() + nest(go, g["c"])
        if not s and (t in (1, 2, 3, 7) or rng.random() < .7): return w + " " + sp() + case("EMPTY")
        b = li(s) if t in (1, 2) else li(s, rng.random() < .4) if t == 4 else nest(li, s) if t in (3, 5) else nest(lambda p: nest(li, p), s)
        return w + sp() + b
    return sp() + go(g) + sp()


# ---------------------------------------------------------------- GeoJSON
JN = ["", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection"]


def jstr(rng, s, esc=.03):
    out = ""
    for c in s:
        k = rng.random()
        if k < esc and ord(c) < 0x10000: out += "\\u%04x" % ord(c) if rng.random() < .5 else "\\u%04X" % ord(c)
        elif c == '"' or c == "\\": out += "\\" + c
        elif c == "/" and k < .5: out += "\\/"
        elif ord(c) < 32: out += {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f"}.get(c, "\\u%04x" % ord(c))
        else: out += c
    return '"' + out + '"'


WORDS = ["a", "name", "bbox", "crs", "id2", "foo bar", "é", "日本", "\U0001F600", "", "coordinate", "Type", "geometrie", "properties2", "x\"y", "b\\s", "t/u", "n\nl", "\0", "a\0b", "1", "typ", "types", "featuress"]


def jval(rng, depth=0):
    k = rng.random()
    if k < .3 or depth > 2: return numtext(rng, False)
    if k < .5: return jstr(rng, rng.choice(WORDS))
    if k < .6: return rng.choice(["true", "false", "null"])
    if k < .8: return "[" + ",".join(jval(rng, depth+1) for _ in range(rng.randint(0, 3))) + "]"
    return "{" + ",".join(jstr(rng, rng.choice(WORDS)) + ":" + jval(rng, depth+1) for _ in range(rng.randint(0, 3))) + "}"


def gjson(rng, g, simple=False):
    sp = (lambda: "") if simple else lambda: rng.choice(["", "", "", "", " ", "\n", "\t ", "\r\n"])

    def arr(x): return "[" + sp() + (sp() + "," + sp()).join(x) + sp() + "]"
    def po(p): return arr(p + ([numtext(rng, False)] if len(p) == 4 and rng.random() < .05 and not simple else []))
    def li(l): return arr([po(p) for p in l])

    def extras(): return [(jstr(rng, rng.choice(WORDS)), jval(rng)) for _ in range(rng.choice([0, 0, 0, 0, 1, 2]))] if not simple else []

    def obj(ms): return "{" + sp() + (sp() + "," + sp()).join(k + sp() + ":" + sp() + v for k, v in ms) + sp() + "}"
    q = lambda s: '"' + s + '"' if simple or rng.random() < .93 else jstr(rng, s, .3) if rng.random() < .9 else jstr(rng, s + "\0" + rng.choice(["", "x"]))

    def geom(g):
        t, s = g["t"], g["s"]
        if t == 7: v, name = arr([geom(c) for c in g["c"]]), "geometries"
        else:
            v = "[]" if not s else po(s[0]) if t == 1 else li(s) if t in (2, 4) else arr([li(x) for x in s]) if t in (3, 5) else arr([arr([li(x) for x in p]) for p in s])
            name = "coordinates"
        ms = [(q("type"), q(JN[t])), (q(name), v)]
        x = extras()
        if not simple and rng.random() < .05: ms.append((q("type"), q(rng.choice(JN[1:]))))
        if not simple and rng.random() < .05: ms.insert(rng.randint(0, 1), (q(name), jval(rng)))
        if not simple and rng.random() < .3:
            if rng.random() < .5: ms = ms[::-1] if len(ms) == 2 else ms
            for e in x: ms.insert(rng.randint(0, len(ms)), e)
        else: ms += x
        return obj(ms)

    def feature(g):
        ms = [(q("type"), q("Feature"))]
        if not simple and rng.random() < .4: ms.append((q("id"), rng.choice([numtext(rng, False), jstr(rng, rng.choice(WORDS))])))
        ms.append((q("geometry"), "null" if rng.random() < .08 else geom(g)))
        if rng.random() < .8: ms.append((q("properties"), rng.choice(["null", "{}", "{" + jstr(rng, "p") + ":" + jval(rng) + "}", obj([(jstr(rng, rng.choice(WORDS)), jval(rng)) for _ in range(rng.randint(1, 3))])])))
        ms += extras()
        if not simple and rng.random() < .3: rng.shuffle(ms)
        if not simple and rng.random() < .05: ms.append(rng.choice([(q("properties"), "{}"), (q("id"), "7"), (q("properties"), '{"z":1}')]))
        return obj(ms)
    k = rng.random()
    if k < .55: b = geom(g)
    elif k < .85: b = feature(g)
    else:
        ms = [(q("type"), q("FeatureCollection")), (q("features"), arr([feature(c) for c in (g["c"] if g["t"] == 7 else [g])]))] + extras()
        if not simple and rng.random() < .3: rng.shuffle(ms)
        b = obj(ms)
    return sp() + b + sp()


# ---------------------------------------------------------------- WKB
def pk(le, f, *a): return struct.pack(("<" if le else ">") + f, *a)


def dbl(x):
    "bytes (little end first) of a coordinate: float, text or raw"
    if isinstance(x, bytes): return x
    return struct.pack("<d", float(x))


def wkb(rng, g, le=True, ewkb=False, count=None):
    """count: list to append (offset) of counts to"""
    st = dict(out=b"")

    def flip(b, l): return b if l else b[::-1]

    def go(g, z, m, top):
        l = le if le is not None else rng.random() < .5
        zz, mm = (z, m)
        ext = ewkb and rng.random() < .6
        code = g["t"]
        hi = 0
        if ext:
            if zz: hi |= 0x80000000
            if mm: hi |= 0x40000000
        else:
            code += 1000*zz + 2000*mm
        srid = ewkb and rng.random() < (.5 if top else .1)
        o = bytes([1 if l else 0]) + pk(l, "I", code | hi | (0x20000000 if srid else 0))
        if srid: o += pk(l, "I", rng.choice([4326, 0, 3857, 0xFFFFFFFF]))
        c = lambda p: b"".join(flip(dbl(x), l) for x in p)
        cs = lambda ps: pk(l, "I", len(ps)) + b"".join(map(c, ps))
        rs = lambda r: pk(l, "I", len(r)) + b"".join(map(cs, r))
        t, s = g["t"], g["s"]
        if t == 1: o += c(s[0]) if s else flip(bytes([0, 0, 0, 0, 0, 0, 0xF8, 0x7F]), l) * (2+zz+mm)
        elif t == 2: o += cs(s)
        elif t == 3: o += rs(s)
        elif t == 4: o += pk(l, "I", len(s)) + b"".join(go(dict(t=1, z=z, m=m, s=[p] if p else []), z, m, False) for p in s)
        elif t == 5: o += pk(l, "I", len(s)) + b"".join(go(dict(t=2, z=z, m=m, s=p), z, m, False) for p in s)
        elif t == 6: o += pk(l, "I", len(s)) + b"".join(go(dict(t=3, z=z, m=m, s=p), z, m, False) for p in s)
        else: o += pk(l, "I", len(g["c"])) + b"".join(go(x, x["z"], x["m"], False) for x in g["c"])
        return o
    return go(g, g["z"], g["m"], True)


def geobin(rng, g, depth=0):
    k = rng.random()
    d = rng.choice([0, 2, 2, 3, 4])
    box = b"".join(dbl(x) for x in [rng.randint(-9, 9) for _ in range(2*d)])
    xj = rng.choice([b"", b"", b"", b"{}", b'{"id":1}', b'{"properties":{"a":1}}', b'{"\\u0069d":2,"id":"b","p\\u0072operties":{}}', b'[{},{"a":1}]', b' [1, 2]', '{"é":"日"}'.encode(), b"null", b"12"])
    if k < .25 and depth == 0: return wkb(rng, g)
    if k < .5 and depth < 2:
        n = g["c"] if g["t"] == 7 else [g] * rng.choice([1, 1, 2])
        return bytes([4, d]) + box + xj + b"\0" + struct.pack("<I", len(n)) + b"".join(geobin(rng, c, depth+1) for c in n)
    return bytes([rng.choice([2, 3]), d]) + box + xj + b"\0" + wkb(rng, g, le=rng.choice([True, True, None]), ewkb=rng.random() < .2)


def encode(rng, f, g, **kw):
    if f == "wkt": return wkt(rng, g).encode()
    if f == "geojson": return gjson(rng, g).encode()
    if f == "wkb": return wkb(rng, g, le=rng.choice([True, False, None]), ewkb=rng.random() < .3) + (bytes(rng.randint(0, 3)) if rng.random() < .1 else b"")
    if f == "geobin": return geobin(rng, g)
    b = wkb(rng, g, le=rng.choice([True, False, None]), ewkb=rng.random() < .2) if rng.random() < .6 else geobin(rng, g)
    h = b.hex()
    k = rng.random()
    return (h if k < .3 else h.upper() if k < .7 else "".join(c.upper() if rng.random() < .5 else c for c in h)).encode()


# ---------------------------------------------------------------- damage
TOK = {
    "wkt": [b"(", b")", b",", b" ", b"1", b"0", b"-", b".", b"e", b"E", b"+", b"Z", b"M", b"ZM", b"EMPTY", b"POINT", b"POLYGON", b"x", b"\x00", b"\x0b", b"\xa0", b"nan", b"1e", b"1.", b"--1", b"+1", b"0x1", b"inf", b"((", b"))", b"()", b",,", b"1 2", b"1 2 3"],
    "geojson": [b"{", b"}", b"[", b"]", b",", b":", b'"', b"\\", b"1", b"0", b"-", b".", b"e", b"null", b"true", b'"type"', b'"coordinates"', b'"geometry"', b'"id"', b'"properties"', b" ", b"\x0b", b"\x00", b"\x1f", b"\x7f", b"\x80", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe0\x80\x80", b"\xc3", b"\xef\xbb\xbf", b"01", b"1.", b".5", b"+1", b"1e", b"tru", b"[]", b"{}", b'"a":1,', b"\\u12", b"\\u12G4", b"\\x", b"[1,2]", b"[1]", b"[[]]", b"NaN", b"'"],
}


def damage(rng, f, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not b: break
        i = rng.randrange(len(b))
        k = rng.random()
        if f in TOK:
            if k < .15: b = b[:i]
            elif k < .4: b[i:i+1] = b""
            elif k < .7: b[i:i] = rng.choice(TOK[f])
            elif k < .85: b[i:i+1] = rng.choice(TOK[f])
            elif k < .93:
                j = rng.randrange(len(b)); b[i], b[j] = b[j], b[i]
            else:
                j = min(len(b), i + rng.randint(1, 12)); b[i:i] = b[i:j]
        elif f == "hex":
            if k < .3: b = b[:i]
            elif k < .6: b[i] = rng.choice(b"0123456789abcdefABCDEFgG xz@`:/\x00")
            elif k < .8: b[i:i+1] = b""
            else: b[i:i] = bytes([rng.choice(b"0123456789abcdefgG x")])
        else:
            if k < .2: b = b[:i]
            elif k < .45: b[i] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 32, 64, 127, 128, 255, rng.randrange(256)])
            elif k < .6:  # near the front of a record: type, count
                i = rng.randrange(min(len(b), 14)); b[i] = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 0x20, 0x40, 0x80, 0xe9, 0xd1, 0xb9, 0xff, b[i] ^ (1 << rng.randrange(8))])
            elif k < .7: b[i] = (b[i] + rng.choice([1, -1])) % 256
            elif k < .8: b[i:i+1] = b""
            elif k < .9: b[i:i] = bytes([rng.choice([0, 1, 2, 3, 255])])
            else:
                j = min(len(b), i + rng.randint(1, 12)); b[i:i] = b[i:j]
    return bytes(b)


def hx(b): return b.hex() or "-"


IXS = ["default", "none", "natural", "ystripes"]


def inputs(rng, f, hard=False, maxlen=700):
    "an input of format f, well formed more often than not"
    while True:
        wk = f == "wkt"
        if f in ("wkt", "geojson"): num = lambda: numtext(rng, wk, hard and rng.random() < .5)
        else: num = lambda: rng.choice([float(rng.randint(-9, 9)), rdouble(rng), bytes(rng.getrandbits(8) for _ in range(8))] if rng.random() < .3 else [float(rng.randint(-99, 99))])
        g = rgeo(rng, num)
        if f in ("wkb", "geobin", "hex") and g["t"] == 4 and rng.random() < .1: g["s"].append([])
        if f in ("wkb", "geobin", "hex") and g["t"] in (5, 6) and rng.random() < .2: g["s"].append([])
        if f in ("wkb", "geobin", "hex") and g["t"] == 6 and g["s"] and rng.random() < .05: g["s"][0] = g["s"][0] + [[]]
        if rng.random() < .06:  # other mistakes: short or open rings, short lines, mixed dimensions
            spoil(rng, g)
        b = encode(rng, f, g)
        if f in TOK and rng.random() < .07: b = stretch(rng, b)
        if rng.random() < .4: b = damage(rng, f, b)
        if len(b) <= maxlen: return b


def stretch(rng, b):
    "a long run of one character: blanks in front of, behind or between tokens, digits in a number, letters in a name"
    n = rng.choice([rng.randint(5, 40), rng.randint(40, 140)])
    k = rng.random()
    if k < .25: i = 0
    elif k < .35: i = len(b)
    elif k < .75:
        at = [i for i, c in enumerate(b) if c in b" ,()[]{}:\n\t\r"]
        i = rng.choice(at) + rng.randint(0, 1) if at else 0
    else:
        i = rng.randint(0, len(b))
        return b[:i] + b[max(i-1, 0):i] * n + b[i:]
    return b[:i] + bytes([rng.choice(b" \n\t\r ")]) * n + b[i:]


def spoil(rng, g):
    t, s = g["t"], g["s"]
    if t == 7:
        if g["c"]: spoil(rng, rng.choice(g["c"]))
        return
    if not s: return
    k = rng.random()
    ls = [s] if t in (2, 4) else s if t in (3, 5) else [r for p in s for r in p] if t == 6 else []
    if not ls: return
    l = rng.choice(ls)
    if not l: return
    if k < .5: l.pop()
    elif k < .7: del l[1:]
    elif k < .85: l[-1] = l[-1][:1]*2
    else: l[rng.randrange(len(l))][-1:] = []


def one_input(rng, f, hard=False): return f, hx(inputs(rng, f, hard)), rng.choice(IXS)


def decscen(p):
    f, h, ix = p
    b = list(bytes.fromhex(h)) if h != "-" else []
    return Scen([f"parse 1 {f} {ix} {h}", "dump 1", "free 1"],
                lambda o: [dict(k="dec", f=FORMATS.index(f), b=b, g=o[1]["g"])], f"parse {f} {bytes(b)!r}"[:300])


# ---------------------------------------------------------------- writing
def rawdouble(rng):
    k = rng.random()
    if k < .35: return struct.pack("<d", float(rng.randint(-180, 180)))
    if k < .85: return struct.pack("<d", rdouble(rng))
    if k < .93: return struct.pack("<d", rng.randint(1, 10**rng.randint(1, 17)) * 10.0 ** rng.randint(-12, 12))
    if k < .97: return bytes(rng.getrandbits(8) for _ in range(8))
    return struct.pack("<Q", rng.choice([0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0xFFF8000000000001, 1, 0x8000000000000000, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x7FEFFFFFFFFFFFFF]))


def isnan(b):
    v = struct.unpack("<d", b)[0]
    return v != v


def source(rng, hard=True, textonly=False, noempty=False):
    "(format, bytes) of a well-formed input"
    while True:
        if textonly or rng.random() < .4:
            g = rgeo(rng, lambda: numtext(rng, False, hard and rng.random() < .5))
            return "geojson", gjson(rng, g, simple=rng.random() < .3).encode()
        g = rgeo(rng, lambda: rawdouble(rng))
        if g["t"] in (5, 6) and rng.random() < .15 and not noempty: g["s"].insert(rng.randint(0, len(g["s"])), [])

        def ringok(g):  # rings with NaN are never closed
            if g["t"] == 7: return all(map(ringok, g["c"]))
            rs = g["s"] if g["t"] == 3 else [r for p in g["s"] for r in p] if g["t"] == 6 else []
            ps = g["s"] if g["t"] in (1, 4) else []
            return all(not isnan(x) for r in rs for p in r for x in p) and not any(all(isnan(x) for x in p) for p in ps)
        if ringok(g):
            return "wkb", wkb(rng, g)


def one_source(rng, *a):
    while True:
        f, b = source(rng, *a)
        if len(b) <= 600: return f, hx(b)


def emptymember(g):
    "a multi with an empty line or polygon, which the text formats cannot express (see KNOWN_FINDINGS.txt)"
    return any(not l for l in g["ml"]) or any(not p or not p[0] for p in g["mr"]) or any(map(emptymember, g["c"]))


def encscen(p, fixed=False, fmts=FORMATS, allowempty=False):
    (f, h) = p
    src = list(bytes.fromhex(h)) if f == "geojson" else []
    cmds = [f"env fixed {int(fixed)}", f"parse 1 {f} default {h}", "dump 1"] + [f"write 1 {x} -1" for x in fmts] + ["env fixed 0", "free 1"]

    def ev(o):
        g = o[2]["g"]
        if g["t"] < 1: return []
        r = []
        for i, x in enumerate(fmts):
            w = o[3+i]
            b = w["b"]
            b = b[:w["ret"]]
            if FORMATS.index(x) >= 3 and not allowempty and emptymember(g): continue
            r.append(dict(k="enc", f=FORMATS.index(x), g=g, b=b, plain=fixed, deep=True, src=src))
        return r
    return Scen(cmds, ev, f"write what {f} {bytes.fromhex(h)!r} reads as"[:300])


def one_buf(rng):
    f, h = one_source(rng)
    rows = [(x, [0, 1, 2] + [rng.randint(0, 60) for _ in range(4)] + [rng.randint(0, 600) for _ in range(3)]) for x in FORMATS]
    return f, h, rows, rng.random() < .3, [rng.choice([-2, -1, 0, 1, 2, 3]) for _ in FORMATS]


def bufscen(p):
    f, h, rows, fixed, off = p
    cmds = [f"env fixed {int(fixed)}", f"parse 1 {f} default {h}"]
    at = []
    for x, ns in rows:
        cmds.append(f"write 1 {x} -1")
        at.append((len(cmds)-1, len(ns)))
        cmds += [f"write 1 {x} {n}" for n in ns]
    cmds += ["env fixed 0", "free 1"]

    def ev(o):
        r = []
        for (i, k), (x, ns) in zip(at, rows):
            if o[1]["err"] or not o[1]["ok"]: return []
            full = o[i]
            r.append(dict(k="buf", f=FORMATS.index(x), b=full["b"][:full["ret"]], rows=[dict(o[i+1+j], n=n) for j, n in enumerate(ns)] + [dict(full, n=len(full["b"]))]))
        return r
    return Scen(cmds, ev, f"write what {f} {bytes.fromhex(h)!r} reads as"[:300])


def longscen(p):
    n, d = p
    return Scen([f"long {n} {d}"], lambda o: [dict(k="len", n=n, d=d, r=o[0]["r"])] if not o[0]["no"] else [], f"lengths of a line of {n} positions of {d} dimensions")


def rtscen(p, fmts=FORMATS, ix="default", fixed=False, allowempty=False):
    f, h = p
    cmds = [f"env fixed {int(fixed)}", f"parse 1 {f} default {h}", "dump 1"]
    for x in fmts: cmds += [f"via 2 1 {x} {ix}", "dump 2", "free 2"]
    cmds += ["env fixed 0", "free 1"]

    def ev(o):
        g = o[2]["g"]
        if g["t"] < 1: return []
        return [dict(k="rt", f=FORMATS.index(x), g=g, h=o[4+3*i]["g"]) for i, x in enumerate(fmts)
                if FORMATS.index(x) < 3 or allowempty or not emptymember(g)]
    return Scen(cmds, ev, f"round trip of what {f} {bytes.fromhex(h)!r} reads as"[:300])


# ---------------------------------------------------------------- GeoBIN headers
def one_gbin(rng):
    "own data (a source to be written) or any bytes"
    if rng.random() < .5: return one_source(rng) + (True,)
    k = rng.random()
    if k < .5: b = inputs(rng, "geobin")
    elif k < .7: b = bytes([rng.choice([0, 1, 2, 3, 4, 5]), rng.choice([0, 1, 2, 3, 4, 4, 5, 255])]) + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 14, 15, 31, 32, 47, 48, 63, 64, 70])))
    else:
        d = rng.choice([2, 3, 3, 4])
        z = {2: 1, 3: rng.choice([1001, 2001]), 4: 3001}[d]
        b = b"\x01" + struct.pack("<I", rng.choice([z, z, z, 2, 1002, 3002, 0, 4001])) + b"".join(rawdouble(rng) for _ in range(d))
        if rng.random() < .5: b = b[:rng.randint(0, len(b))]
    return "geobin", hx(b), False


def gbinscen(p):
    f, h, own = p
    if not own:
        b = list(bytes.fromhex(h)) if h != "-" else []
        return Scen([f"gbin {h}"], lambda o: [dict(k="gbin", f=1, b=b, q=o[0], own=False, g=dict(e=1), pt=[])], f"GeoBIN queries of {h}"[:300])
    return Scen([f"parse 1 {f} default {h}", "dump 1", "write 1 geobin -1", "gpoint 1", "gbinw 1", "free 1"],
                lambda o: [dict(k="gbin", f=1, b=o[2]["b"][:o[2]["ret"]], q=o[4], own=True, g=o[1]["g"], pt=o[3]["p"])] if o[1]["g"]["t"] > 0 else [],
                f"GeoBIN queries of what {f} {h} reads as"[:300])


# ---------------------------------------------------------------- detection
def one_auto(rng):
    f = rng.choice(FORMATS)
    k = rng.random()
    if k < .9: b = inputs(rng, f)
    else: b = bytes(rng.choice(b"0123456789abcdefABCDEF{}[]()POINTZMEMPTY ,.\n\x00\x01\x02\x03\x04\x05") for _ in range(rng.randint(0, 24)))
    if rng.random() < .15: b = rng.choice([b" ", b"\n", b"\t", b"\x0b", b"\x0c", b"  "]) * rng.choice([1, 1, 2, 7, 15, 16, 17, rng.randint(1, 130)]) + b
    if rng.random() < .05: b = b + rng.choice([b" ", b"\n", b"\x00"])
    return hx(b)


def autoscen(h):
    cmds = []
    for i, f in enumerate(FORMATS + ["auto"]): cmds += [f"parse 1 {f} default {h}", "dump 1", "free 1"]
    b = list(bytes.fromhex(h)) if h != "-" else []
    return Scen(cmds, lambda o: [dict(k="auto", f=5, b=b, gs=[o[3*i+1]["g"] for i in range(5)], g=o[16]["g"])] if b else [], f"detection of {bytes(b)!r}"[:300])


# ---------------------------------------------------------------- hostile input
def deep(rng):
    n = rng.choice([1000, 1022, 1023, 1024, 1025, 1026, 5000, 100000])
    k = rng.randrange(9)
    if k == 0: return "geojson", b"[" * n + (b"]" * n if rng.random() < .5 else b"")
    if k == 1: return "geojson", b'{"type":"Point","coordinates":[1,2],"a":' + b"[" * n + b"]" * n + b"}"
    if k == 2: return "geojson", b'{"type":"GeometryCollection","geometries":[' * n + b"]}" * n
    if k == 3: return "geojson", b'{"a":' * n + b"1" + b"}" * n
    if k == 4: return "wkt", b"GEOMETRYCOLLECTION(" * n + b"POINT(1 2)" + b")" * n
    if k == 5: return "wkt", b"POLYGON" + b"(" * n + b"1 2" + b")" * n
    if k == 6: return "wkb", b"\x01\x07\x00\x00\x00\x01\x00\x00\x00" * n + b"\x01\x01\x00\x00\x00" + bytes(16)
    if k == 7: return "geobin", b"\x04\x00\x00\x01\x00\x00\x00" * n + b"\x01\x01\x00\x00\x00" + bytes(16)
    return "geobin", b"\x02\x00\x00" + b"\x01\x07\x00\x00\x00\x01\x00\x00\x00" * n + b"\x01\x01\x00\x00\x00" + bytes(16)


def counts(rng):
    "records that announce more than there is"
    c = rng.choice([0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x40000000, 0x20000001, 0x10000000, 0x0FFFFFFF, 1000000, 100000, 65536])
    t = rng.choice([2, 3, 4, 5, 6, 7, 1003, 2006, 3002])
    le = rng.random() < .6
    h = bytes([1 if le else 0]) + pk(le, "II", t, c) + bytes(rng.choice([0, 4, 8, 15, 16, 40, 100, 1000]))
    k = rng.random()
    if k < .5: return "wkb", h
    if k < .6: return "hex", h.hex().encode()
    if k < .75: return "geobin", bytes([rng.choice([2, 3]), 0, 0]) + h
    if k < .9: return "geobin", b"\x04\x00\x00" + struct.pack("<I", c) + bytes(rng.choice([0, 5, 100]))
    return "geobin", bytes([rng.choice([2, 3, 4]), rng.choice([2, 3, 4, 255])]) + bytes(rng.choice([0, 31, 32, 64])) + b"{" * rng.randint(0, 3)


def longs(rng):
    "long but flat input"
    n = rng.choice([300, 5000, 30000])
    k = rng.randrange(9)
    if k == 0: return "geojson", b'{"type":"Point","coordinates":[' + b"1" * n + b",2]}"
    if k == 1: return "geojson", b'{"type":"Point","coordinates":[0.' + b"0" * n + b"1,1e" + b"9" * n + b"]}"
    if k == 2: return "geojson", b" " * n + b'{"type":"Point"' + b"\n" * n + b',"coordinates":[1,2]}'
    if k == 3: return "geojson", b'{"type":"Point","coordinates":[1,2],"' + b"a" * n + b'":"' + "é".encode() * n + b'"}'
    if k == 4: return "geojson", b'{"type":"LineString","coordinates":[' + b",".join(b"[%d,1]" % i for i in range(n // 8)) + b"]}"
    if k == 5: return "wkt", b"POINT(" + b"1" * n + b" 2)"
    if k == 6: return "wkt", b"P" * n
    if k == 7: return "wkt", b"MULTIPOINT(" + b",".join(b"(%d 1)" % i for i in range(n // 8)) + b")"
    return "hex", b"0" * n


def prefixes(rng):
    f = rng.choice(FORMATS)
    b = inputs(rng, f)
    return f, b[:rng.randint(0, len(b))]


def one_hostile(rng):
    k = rng.random()
    if k < .55:
        f = rng.choice(FORMATS)
        b = inputs(rng, f)
        for _ in range(rng.choice([0, 1, 1, 2])): b = damage(rng, f, b)
    elif k < .75: f, b = prefixes(rng)
    elif k < .85: f, b = counts(rng)
    elif k < .9: f, b = longs(rng)
    elif k < .93: f, b = deep(rng)
    else:
        f = rng.choice(FORMATS)
        al = b"0123456789abcdefABCDEF{}[]()POINTZMEMPTY ,.\"\\-+\n\x00\x01\x02\x03\x04\x05\xff\x80"
        b = bytes(rng.choice(al) for _ in range(rng.randint(0, 40)))
    if rng.random() < .1: f = rng.choice(FORMATS)
    if rng.random() < .2: f = "auto"
    elif f in ("wkt", "geojson", "hex") and rng.random() < .15: f += "z"
    return f, hx(b), rng.choice(IXS), rng.random() < .5


def anyscen(p):
    "what was parsed is used in every way"
    f, h, ix, use = p
    big = len(h) > 4000
    cmds = [f"parse 1 {f} {ix} {h}", "dump 1", "parse 2 wkt default " + b"POLYGON((0 0,9 0,9 9,0 9,0 0))".hex()]
    if use:
        cmds += [f"write 1 {x} {n}" for x in FORMATS for n in (-1, 7)] + ["rel 1 2", "memsize 1", "copy 3 1", "free 3", "clone 3 1", "free 1", "dump 3", "free 3"]
    cmds += ["freeall"]
    return Scen(cmds, lambda o: [dict(k="any", f=5, b=[] if big else list(bytes.fromhex(h)) if h != "-" else [], g=o[1]["g"])] if not (big and o[1]["g"]["t"] > 0) else [],
                f"parse {f} {bytes.fromhex(h) if h != '-' else b''!r}"[:300])


# ---------------------------------------------------------------- numbers alone
def one_numread(rng):
    wk = rng.random() < .5
    n = [numtext(rng, wk, True) for _ in range(6)]
    if wk: return "wkt", hx(("MULTIPOINT(" + ",".join("%s %s" % (n[i], n[i+1]) for i in (0, 2, 4)) + ")").encode()), "none"
    return "geojson", hx(('{"type":"MultiPoint","coordinates":[' + ",".join("[%s,%s]" % (n[i], n[i+1]) for i in (0, 2, 4)) + "]}").encode()), "none"


def tie(rng):
    "a double whose shortest decimal may lie exactly half way to a neighbour: m * 10^k with m * 5^k of 54 bits"
    k = rng.randint(2, 23)
    m = rng.randint(2**53 // 5**k, 2**54 // 5**k + 1) | 1
    return float(m * 10**k * 2**rng.choice([0, 0, 0, 1, 2, 3, 4]))


def one_numwrite(rng):
    out = []
    for _ in range(8):
        k = rng.random()
        if rng.random() < .1:
            out.append(struct.pack("<d", rng.choice([1, -1]) * tie(rng)))
            continue
        if k < .6: d = rawdouble(rng)
        elif k < .75: d = struct.pack("<d", float("%de%d" % (rng.randint(1, 10**rng.randint(1, 17)), rng.randint(-30, 30))))
        elif k < .9:  # neighbours of powers of ten and two
            import math
            x = 10.0**rng.randint(-20, 25) if rng.random() < .6 else 2.0**rng.randint(-80, 100)
            for _ in range(rng.randint(0, 2)): x = math.nextafter(x, rng.choice([0, math.inf]))
            d = struct.pack("<d", x * rng.choice([1, -1]))
        else: d = rng.getrandbits(64).to_bytes(8, "little")
        out.append(d)
    return ["h" + d[::-1].hex() for d in out]


def numwscen(ds):
    cmds = ["rmp 1 default %d %s" % (len(ds) // 2, " ".join(ds)), "dump 1"]
    for fx in (0, 1): cmds += [f"env fixed {fx}", "write 1 wkt -1", "write 1 geojson -1"]
    cmds += ["env fixed 0", "free 1"]

    def ev(o):
        return [dict(k="enc", f=f, g=o[1]["g"], b=o[i]["b"][:o[i]["ret"]], plain=pl, deep=True, src=[]) for f, i, pl in ((3, 3, False), (4, 4, False), (3, 6, True), (4, 7, True))]
    return Scen(cmds, ev, "write the numbers " + " ".join(ds))
