"""The checks that CodecTrace.tla decides."""
from codecgen import *
from vlib import pgen
import itertools, os

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "codec_canaries.json")) as f:
    CANARIES = json.load(f)


def one_seed(rng, f):
    while True:
        b = inputs(rng, f)
        if len(b) < (70 if f in ("wkt", "hex") else 130 if f == "geojson" else 100): return hx(b)


def edits(rng, f, b, n):
    "n of the single edits of b: prefixes, deletions, insertions, replacements, exchanges"
    if f in TOK: al = TOK[f]
    elif f == "hex": al = [bytes([c]) for c in b"0123456789abcdefABCDEFgG x/:@`"]
    else: al = [bytes([c]) for c in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 32, 64, 128, 192, 255)]
    L = len(b)
    allof = [("p", i, 0) for i in range(L)] + [("d", i, 0) for i in range(L)] + [("x", i, 0) for i in range(L-1)]
    allof += [(k, i, j) for k in "ir" for i in range(L) for j in range(len(al))]
    if f in ("wkb", "geobin"): allof += [("b", i, j) for i in range(L) for j in range(8)] * 3
    for k, i, j in rng.sample(allof, min(n, len(allof))):
        c = bytearray(b)
        if k == "p": c = c[:i]
        elif k == "d": del c[i]
        elif k == "x": c[i], c[i+1] = c[i+1], c[i]
        elif k == "i": c[i:i] = al[j]
        elif k == "r": c[i:i+1] = al[j]
        else: c[i] ^= 1 << j
        yield hx(bytes(c))


def one_edited(rng, f, n):
    s = one_seed(rng, f)
    b = bytes.fromhex(s) if s != "-" else b""
    return [(f, h, rng.choice(IXS)) for h in [s] + list(edits(rng, f, b, n)) if h != "-"]


WTOK = ["POINT", "LINESTRING", "MULTIPOINT", "GEOMETRYCOLLECTION", "EMPTY", "Z", "M", "(", ")", ",", "1", "2"]
JTOK = ["{", "}", "[", "]", ",", ":", "1", '"type"', '"Point"', '"coordinates"', '"MultiPoint"', "null"]


def one_tokens(rng, f):
    "a sentence that is a few tokens away from nothing"
    if f == "wkt":
        n = rng.randint(1, 9)
        return f, hx((rng.choice(["", " "]).join(rng.choice(WTOK) for _ in range(n))).encode()), "default"
    return f, hx("".join(rng.choice(JTOK) for _ in range(rng.randint(1, 9))).encode()), "default"


def decode(ctx, fmts, n):
    "n random inputs and about n single edits of small ones, per format"
    sc = []
    for f in fmts:
        k = n // len(fmts)
        sc += [decscen(t) for t in pgen(ctx.rng, one_input, k, f)]
        sc += [decscen(t) for l in pgen(ctx.rng, one_edited, max(1, k // 60), f, 60) for t in l]
        if f in ("wkt", "geojson"): sc += [decscen(t) for t in pgen(ctx.rng, one_tokens, k // 5, f)]
        if f in ("wkt", "geojson", "hex"):  # the same through the entry points for terminated text
            for t in pgen(ctx.rng, one_input, k // 6, f):
                if "00" in [t[1][i:i+2] for i in range(0, len(t[1]), 2)] or t[1] == "-": continue
                s = decscen(t)
                s.cmds[0] = s.cmds[0].replace(f"parse 1 {f} ", f"parse 1 {f}z ")
                sc.append(s)
    can = [c for c in CANARIES if c["k"] == "dec" and FORMATS[c["f"]] in fmts]
    ctx.check("CodecTrace", sc, canaries=can)


def can(*k): return [c for c in CANARIES if c["k"] in k]
