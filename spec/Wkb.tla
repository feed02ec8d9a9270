-------------------------------- MODULE Wkb --------------------------------
(***************************************************************************)
(* Well-known binary (ISO, and the extended form with SRID and dimension   *)
(* bits), its hex form, and GeoBIN.                                        *)
(* A decoder yields [ok, i, g]: ok 0 malformed, 1 the geometry g ending    *)
(* before byte i, 2 undecided (a polygon with a ring without positions).   *)
(***************************************************************************)
EXTENDS Geo, JsonText
No == [ok |-> 0, i |-> 0, g |-> <<>>]
Yes(i, g) == [ok |-> 1, i |-> i, g |-> g]
Huge == 1000000000
Bytes4(b, i, le) == IF le THEN <<b[i], b[i+1], b[i+2], b[i+3]>> ELSE <<b[i+3], b[i+2], b[i+1], b[i]>>
U32(b, i, le) == LET w == Bytes4(b, i, le) IN IF w[4] >= 32 THEN Huge ELSE ((w[4]*256 + w[3])*256 + w[2])*256 + w[1]
Dbl8(b, i, le) == [k \in 1..8 |-> b[IF le THEN i+k-1 ELSE i+8-k]]
PosB(b, i, le, d) == [k \in 1..d |-> Dbl8(b, i+8*(k-1), le)]
Posns(b, i, le, d, n) == [k \in 1..n |-> PosB(b, i+8*d*(k-1), le, d)]
ClosedB(p) == DEq(p[1][1], p[Len(p)][1]) /\ DEq(p[1][2], p[Len(p)][2]) /\ ~DNaN(p[1][1]) /\ ~DNaN(p[1][2])
\* n positions at i fit the data
Fit(b, i, d, n) == n <= (Len(b)-i+1) \div (8*d)
RECURSIVE WkbAt(_, _, _), Rings(_, _, _, _, _, _), Kids(_, _, _, _, _)
Rings(b, i, le, d, n, acc) ==
    IF n = 0 THEN [ok |-> 1, i |-> i, g |-> acc]
    ELSE IF i+3 > Len(b) THEN No
    ELSE LET c == U32(b, i, le)
             p == Posns(b, i+4, le, d, c)
             rest == Rings(b, i+4+8*d*c, le, d, n-1, Append(acc, p))
         IN IF ~Fit(b, i+4, d, c) THEN No
            ELSE IF c = 0 THEN (IF rest.ok = 0 THEN No ELSE [rest EXCEPT !.ok = 2])
            ELSE IF c < 3 \/ ~ClosedB(p) THEN No
            ELSE rest
Kids(b, i, n, depth, acc) ==
    IF n = 0 THEN [ok |-> 1, i |-> i, g |-> acc]
    ELSE LET r == WkbAt(b, i, depth+1) IN
         IF r.ok = 0 THEN No
         ELSE LET rest == Kids(b, r.i, n-1, depth, Append(acc, r.g)) IN
              IF rest.ok = 0 THEN No ELSE IF r.ok = 2 THEN [rest EXCEPT !.ok = 2] ELSE rest
WkbAt(b, i, depth) ==
    IF i+4 > Len(b) \/ depth > MaxDepth THEN No
    ELSE IF b[i] > 1 THEN No
    ELSE LET le == b[i] = 1
             w == Bytes4(b, i+1, le)
             code == w[1] + 256*w[2]
             srid == (w[4] \div 32) % 2 = 1
             base == code % 1000
             dm == code \div 1000
             z == IF dm \in {1, 3} \/ w[4] >= 128 THEN 1 ELSE 0
             m == IF dm \in {2, 3} \/ (w[4] \div 64) % 2 = 1 THEN 1 ELSE 0
             d == 2 + z + m
             j == IF srid THEN i+9 ELSE i+5       \* after the type (and SRID)
             n == U32(b, j, le)
             k == j+4                               \* after the count
         IN IF dm > 3 \/ base < 1 \/ base > 7 \/ j > Len(b)+1 THEN No
            ELSE IF base = 1
            THEN (IF ~Fit(b, j, d, 1) THEN No
                  ELSE LET p == PosB(b, j, le, d) IN
                       Yes(j+8*d, IF \A q \in 1..d : DNaN(p[q]) THEN NoPos(1) ELSE Point(z, m, p)))
            ELSE IF k > Len(b)+1 THEN No
            ELSE IF base = 2
            THEN (IF n = 0 THEN Yes(k, NoPos(2))
                  ELSE IF n < 2 \/ ~Fit(b, k, d, n) THEN No
                  ELSE Yes(k+8*d*n, Geo(2, z, m, Posns(b, k, le, d, n))))
            ELSE IF base = 3
            THEN (IF n = 0 THEN Yes(k, NoPos(3))
                  ELSE IF n > (Len(b)-k+1) \div 4 THEN No
                  ELSE LET r == Rings(b, k, le, d, n, <<>>) IN
                       IF r.ok = 0 THEN No ELSE [r EXCEPT !.g = Geo(3, z, m, r.g)])
            ELSE IF n > (Len(b)-k+1) \div 9 THEN No
            ELSE LET r == Kids(b, k, n, depth, <<>>)
                     fit == \A q \in 1..Len(r.g) : r.g[q].t = base-3 /\ (r.g[q].s = <<>> \/ (r.g[q].z = z /\ r.g[q].m = m))
                     ss == [q \in 1..Len(r.g) |-> r.g[q].s]
                 IN IF r.ok = 0 THEN No
                    ELSE IF base = 7 THEN [r EXCEPT !.g = Coll(r.g)]
                    ELSE IF ~fit THEN No
                    ELSE [r EXCEPT !.g = Geo(base, z, m, IF base = 4 THEN FlattenSeq(ss) ELSE ss)]
\* a whole byte string; what follows the geometry does not matter
DecWkb(b) == WkbAt(b, 1, 0)

RECURSIVE BinAt(_, _, _), BinKids(_, _, _, _, _), Nul(_, _)
Nul(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = 0 THEN i ELSE Nul(b, i+1)
BinKids(b, i, n, depth, acc) ==
    IF n = 0 THEN [ok |-> 1, i |-> i, g |-> acc]
    ELSE LET r == BinAt(b, i, depth+1) IN
         IF r.ok = 0 THEN No
         ELSE LET rest == BinKids(b, r.i, n-1, depth, Append(acc, r.g)) IN
              IF rest.ok = 0 THEN No ELSE IF r.ok = 2 THEN [rest EXCEPT !.ok = 2] ELSE rest
BinAt(b, i, depth) ==
    IF i > Len(b) \/ depth > MaxDepth THEN No
    ELSE IF b[i] = 1 THEN WkbAt(b, i, depth)
    ELSE IF b[i] \notin {2, 3, 4} \/ i+1 > Len(b) THEN No
    ELSE LET dims == b[i+1]
             x == i + 2 + 16*dims
             e == Nul(b, x)
             xj == SubSeq(b, x, e-1)
         IN IF dims \notin {0, 2, 3, 4} THEN No
            ELSE IF x > Len(b) THEN No
            ELSE IF e = 0 THEN No
            ELSE IF xj # <<>> /\ JDoc(xj).k = 0 THEN No
            ELSE IF b[i] = 4
            THEN (IF e+4 > Len(b) THEN No
                  ELSE LET n == U32(b, e+1, TRUE) IN
                       IF n > Len(b)-e-4 THEN No
                       ELSE LET r == BinKids(b, e+5, n, depth, <<>>) IN
                            IF r.ok = 0 THEN No ELSE [r EXCEPT !.g = [Coll(r.g) EXCEPT !.fc = 1, !.j = xj]])
            ELSE LET r == WkbAt(b, e+1, depth) IN
                 IF r.ok = 0 THEN No ELSE [r EXCEPT !.g = [r.g EXCEPT !.ft = IF b[i] = 3 THEN 1 ELSE 0, !.j = xj]]
DecBin(b) == BinAt(b, 1, 0)

DecHex(h) ==
    IF Len(h) = 0 \/ Len(h) % 2 = 1 \/ \E i \in 1..Len(h) : ~IsHex(h[i]) THEN No
    ELSE LET b == [i \in 1..(Len(h) \div 2) |-> 16*HexVal(h[2*i-1]) + HexVal(h[2*i])] IN
         IF b[1] \in {2, 3, 4} THEN DecBin(b) ELSE DecWkb(b)

(***************************************************************************)
(* Encoding.  o: what the accessors show (for the bounding rectangles),    *)
(* v: its value.                                                           *)
(***************************************************************************)
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
NaNB == <<0, 0, 0, 0, 0, 0, 248, 127>>
Hdr(t, z, m) == <<1>> \o LE32(t + 1000*z + 2000*m)
Flat(p) == FlattenSeq(p)
EncPs(p) == LE32(Len(p)) \o FlattenSeq([i \in 1..Len(p) |-> Flat(p[i])])
EncRs(r) == LE32(Len(r)) \o FlattenSeq([i \in 1..Len(r) |-> EncPs(r[i])])
RECURSIVE EncWkb(_, _)
EncWkb(o, v) ==
    Hdr(v.t, v.z, v.m) \o
    CASE v.t = 1 -> (IF v.s = <<>> THEN NaNB \o NaNB ELSE Flat(v.s[1]))
      [] v.t = 2 -> EncPs(v.s)
      [] v.t = 3 -> EncRs(v.s)
      [] v.t = 4 -> LE32(Len(v.s)) \o FlattenSeq([i \in 1..Len(v.s) |-> Hdr(1, v.z, v.m) \o Flat(v.s[i])])
      [] v.t = 5 -> LE32(Len(v.s)) \o FlattenSeq([i \in 1..Len(v.s) |-> Hdr(2, v.z, v.m) \o EncPs(v.s[i])])
      [] v.t = 6 -> LE32(Len(v.s)) \o FlattenSeq([i \in 1..Len(v.s) |-> Hdr(3, v.z, v.m) \o EncRs(v.s[i])])
      [] OTHER -> LE32(Len(v.c)) \o FlattenSeq([i \in 1..Len(v.c) |-> EncWkb(o.c[i], v.c[i])])
RECURSIVE EncBin(_, _)
EncBin(o, v) ==
    IF v.t = 1 /\ v.ft = 0 /\ v.j = <<>> THEN EncWkb(o, v)
    ELSE <<IF v.fc = 1 THEN 4 ELSE IF v.ft = 1 THEN 3 ELSE 2, Len(o.fr)>>
         \o FlattenSeq([i \in 1..Len(o.fr) |-> o.fr[i][1]]) \o FlattenSeq([i \in 1..Len(o.fr) |-> o.fr[i][2]])
         \o v.j \o <<0>>
         \o (IF v.fc = 1 THEN LE32(Len(v.c)) \o FlattenSeq([i \in 1..Len(v.c) |-> EncBin(o.c[i], v.c[i])])
             ELSE EncWkb(o, v))
HexDig(n) == IF n < 10 THEN 48+n ELSE 55+n
EncHex(b) == [i \in 1..2*Len(b) |-> LET x == b[(i+1) \div 2] IN HexDig(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]
=============================================================================
