----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Reading and writing geometries.  Formats f: 0 WKB, 1 GeoBIN, 2 hex,     *)
(* 3 WKT, 4 GeoJSON, 5 detected.  Records of geometries are the driver's   *)
(* dumps: t = 0 nothing, t = -1 an error.                                  *)
(*  k = "dec":  bytes b were parsed as f, giving g                         *)
(*  k = "enc":  geometry g was written as f, giving b; plain: without      *)
(*     exponents; deep: with the fewest digits; src: the GeoJSON that g     *)
(*     came from, or none                                                  *)
(*  k = "buf":  full output b of a format, and writes into buffers of      *)
(*     other sizes                                                         *)
(*  k = "rt":   g was written as f and parsed back, giving h               *)
(*  k = "auto": b parsed as each of the five formats (gs) and detected (g) *)
(*  k = "gbin": queries of GeoBIN data b, of the geometry it came from if  *)
(*     own                                                                 *)
(*  k = "any":  some bytes were parsed, giving g                           *)
(***************************************************************************)
EXTENDS Wkb, GeoText, TraceBase
VARIABLE l
\* decoder of format f: [ok, g], and whether coordinates are texts
Dec(f, b) == CASE f = 0 -> DecWkb(b) [] f = 1 -> DecBin(b) [] f = 2 -> DecHex(b) [] f = 3 -> DecWkt(b) [] OTHER -> DecJson(b)
Mode(f) == IF f >= 3 THEN 1 ELSE 0
IsErr(o) == o.t = -1 /\ o.err # <<>>
BadDec(e) ==
    LET r == Dec(e.f, e.b) IN
    CASE r.ok = 0 -> IF IsErr(e.g) THEN {} ELSE {"malformed input accepted"}
      [] r.ok = 1 -> IF e.g.t < 1 THEN {"well-formed input rejected"} ELSE Diff(Mode(e.f), r.g, e.g)
      [] OTHER -> IF IsErr(e.g) THEN {} ELSE IF e.g.t < 1 THEN {"neither geometry nor error"}
                   ELSE IF e.f <= 2 THEN (IF e.g.t = r.g.t THEN {} ELSE {"type"}) ELSE Diff(Mode(e.f), r.g, e.g)
\* what was said about a feature in the text that it came from
RECURSIVE Told(_, _)
Told(v, d) == [v EXCEPT !.ul = d.ul, !.np = d.np, !.c = [i \in 1..Len(v.c) |-> IF i <= Len(d.c) THEN Told(v.c[i], d.c[i]) ELSE v.c[i]]]
BadEnc(e) ==
    LET src == IF e.src = <<>> THEN TNo ELSE DecJson(e.src)
        v == IF src.ok = 0 THEN View(e.g) ELSE Told(View(e.g), src.g)
        want == CASE e.f = 0 -> EncWkb(e.g, v) [] e.f = 1 -> EncBin(e.g, v) [] OTHER -> EncHex(EncWkb(e.g, v))
        p == Departs(IF e.f = 3 THEN EncWkt(v) ELSE EncJson(v), e.b, e.plain, e.deep)
    IN IF e.f <= 2 THEN (IF e.b = want THEN {} ELSE {"other bytes"})
       ELSE IF p = 0 THEN {} ELSE {"departs at " \o ToString(p)}
BadBuf(e) ==
    LET L == Len(e.b)
        Row(r) == LET c == IF e.f >= 2 THEN (IF r.n = 0 THEN 0 ELSE IF r.n-1 < L THEN r.n-1 ELSE L) ELSE IF r.n < L THEN r.n ELSE L
                  IN (IF r.ret = L /\ r.ret2 = L THEN {} ELSE {"length"})
                     \cup (IF SubSeq(r.b, 1, c) = SubSeq(e.b, 1, c) THEN {} ELSE {"prefix"})
                     \cup (IF e.f >= 2 /\ r.n > 0 /\ r.b[c+1] # 0 THEN {"not terminated"} ELSE {})
                     \cup (IF r.over = 1 THEN {"written past the end"} ELSE {})
                     \cup (IF r.same = 1 THEN {} ELSE {"differs in another buffer"})
    IN UNION {Row(e.rows[i]) : i \in 1..Len(e.rows)}
(***************************************************************************)
(* Lengths of 2^31 and more, in units of ten thousand bytes: a line of     *)
(* e.n positions as WKB (measured, and cut short), as hex, as GeoBIN (with *)
(* a header of two bytes, a rectangle and no members).                     *)
(***************************************************************************)
BadLen(e) ==
    LET step == 8*e.d
        Whole(c) == LET lo == (e.n % 10000)*step + c IN <<(e.n \div 10000)*step + lo \div 10000, lo % 10000>>
        Twice(x) == <<2*x[1] + (2*x[2]) \div 10000, (2*x[2]) % 10000>>
        w == Whole(9)
    IN (IF e.r[1] = w /\ e.r[2] = w THEN {} ELSE {"WKB length"})
       \cup (IF e.r[3] = Twice(w) THEN {} ELSE {"hex length"})
       \cup (IF e.r[4] = Whole(3 + 16*e.d + 9) THEN {} ELSE {"GeoBIN length"})
       \cup (IF e.r[5][1] > (e.n \div 10000)*16 \/ (e.r[5][1] = (e.n \div 10000)*16 /\ e.r[5][2] > (e.n % 10000)*16) THEN {} ELSE {"memory size"})
(***************************************************************************)
(* What a format carries: text has no infinities, subnormals or zero       *)
(* signs; GeoJSON has no M without Z; only GeoBIN and GeoJSON have         *)
(* features and members; empty points, lines and polygons have no          *)
(* dimensions; WKB has no empty points in a multipoint.                    *)
(***************************************************************************)
Carry1(f, d) == IF f >= 3 /\ ~DNormal(d) THEN DZero ELSE d
CarryP(f, p) == [i \in 1..Len(p) |-> Carry1(f, p[i])]
CarryL(f, x) == [i \in 1..Len(x) |-> CarryP(f, x[i])]
CarryR(f, x) == [i \in 1..Len(x) |-> CarryL(f, x[i])]
CarryM(f, x) == [i \in 1..Len(x) |-> CarryR(f, x[i])]
\* records the format loses the dimensions of
NoDims(f, v) == v.t = 7 \/ v.s = <<>>
RECURSIVE Carried(_, _)
Carried(f, v) ==
    LET keep == f \in {1, 4}
        s == CASE v.t \in {1, 2, 4} -> CarryL(f, v.s) [] v.t \in {3, 5} -> CarryR(f, v.s) [] v.t = 6 -> CarryM(f, v.s) [] OTHER -> <<>>
        nd == v.t = 7 \/ (v.s = <<>> /\ (v.t \in {1, 2, 3} \/ f \in {3, 4}))
        monly == f = 4 /\ v.m = 1 /\ v.z = 0
    IN [v EXCEPT !.s = s, !.z = IF nd THEN 0 ELSE IF monly THEN 1 ELSE v.z, !.m = IF nd \/ monly THEN 0 ELSE v.m,
                 !.ft = IF keep THEN v.ft ELSE 0, !.fc = IF keep THEN v.fc ELSE 0, !.j = IF keep THEN v.j ELSE <<>>,
                 \* GeoBIN keeps the members of what is not inside a plain collection
                 !.c = [i \in 1..Len(v.c) |-> Carried(IF f = 1 /\ v.fc = 0 THEN 0 ELSE f, v.c[i])]]
\* GeoJSON is written with the id first, and empty properties if there are none: members as sets
KeyOf(j, n) == IF StrIs(j, n, B("id")) THEN B("\"id\"") ELSE IF StrIs(j, n, B("properties")) THEN B("\"properties\"") ELSE Raw(j, n)
MembersOf(j, n) == {<<KeyOf(j, n.c[i][1]), Raw(j, n.c[i][2])>> : i \in 1..Len(n.c)} \ {<<B("\"properties\""), B("{}")>>, <<B("\"properties\""), B("null")>>}
MemberSets(j) == IF j = <<>> THEN <<{}, {}>>
                 ELSE LET n == JDoc(j) IN IF n.k = JArr THEN <<MembersOf(j, n.c[1]), MembersOf(j, n.c[2])>> ELSE <<MembersOf(j, n), {}>>
RECURSIVE SameMembers(_, _)
SameMembers(o, h) == MemberSets(o.j) = MemberSets(h.j) /\ \A i \in 1..Len(o.c) : SameMembers(o.c[i], h.c[i])
BadRt(e) ==
    IF e.h.t < 1 THEN {"not read back"}
    ELSE LET d == Diff(0, Carried(e.f, View(e.g)), e.h) IN
         IF e.f # 4 THEN d
         ELSE LET x == d \ {"members"} IN IF x # {} \/ SameMembers(e.g, e.h) THEN x ELSE {"members"}
BadAuto(e) ==
    LET ok == {i \in 1..5 : e.gs[i].t >= 1} IN
    IF ok = {} THEN (IF IsErr(e.g) THEN {} ELSE {"accepted though no format is"})
    ELSE IF \E i \in ok : e.gs[i] = e.g THEN {} ELSE {"not as its format"}
(***************************************************************************)
(* GeoBIN headers                                                          *)
(***************************************************************************)
Zero4 == <<DZero, DZero, DZero, DZero>>
BadBin(e) ==
    LET b == e.b
        n == Len(b)
        point == n > 4 /\ b[1] = 1 /\ b[2] + 256*b[3] \in {1, 1001, 2001, 3001} /\ b[4] = 0 /\ b[5] = 0
        pd == CASE b[2] + 256*b[3] = 1 -> 2 [] b[2] + 256*b[3] = 3001 -> 4 [] OTHER -> 3
        mbr == n > 2 /\ b[1] \in {2, 3, 4} /\ n >= 2 + 16*b[2]
        d == b[2]
        fr == IF point /\ n >= 5+8*pd THEN [i \in 1..pd |-> <<Dbl8(b, 6+8*(i-1), TRUE), Dbl8(b, 6+8*(i-1), TRUE)>>]
              ELSE IF mbr /\ d <= 4 THEN [i \in 1..d |-> <<Dbl8(b, 3+8*(i-1), TRUE), Dbl8(b, 3+8*d+8*(i-1), TRUE)>>]
              ELSE <<>>
        rc == IF point /\ n >= 21 THEN <<Dbl8(b, 6, TRUE), Dbl8(b, 14, TRUE), Dbl8(b, 6, TRUE), Dbl8(b, 14, TRUE)>>
              ELSE IF mbr /\ d >= 2 THEN <<Dbl8(b, 3, TRUE), Dbl8(b, 11, TRUE), Dbl8(b, 3+8*d, TRUE), Dbl8(b, 11+8*d, TRUE)>>
              ELSE Zero4
        \* data that is neither a point nor well formed
        odd == (mbr /\ (d = 1 \/ d > 4)) \/ (n > 0 /\ b[1] = 1 /\ ~point)
    IN (IF odd \/ (e.q.d = Len(fr) /\ e.q.fr = fr) THEN {} ELSE {"fullrect"})
       \cup (IF odd \/ e.q.rc = rc THEN {} ELSE {"rect"})
       \cup (IF e.q.clean = 1 THEN {} ELSE {"more than the dimensions written"})
       \cup (IF ~e.own \/ e.g.e = 1 THEN {}
             ELSE (IF e.q.rc = e.g.rc THEN {} ELSE {"not the geometry's rectangle"})
                  \cup (IF e.q.fr = e.g.fr THEN {} ELSE {"not the geometry's full rectangle"})
                  \cup (IF e.q.pt = e.pt THEN {} ELSE {"not the geometry's point"}))
       \cup (IF ~odd /\ rc = Zero4 /\ fr = <<>> /\ e.q.pt # <<DZero, DZero>> THEN {"point of nothing"} ELSE {})
       \cup (IF ~odd /\ point /\ n >= 21 /\ e.q.pt # <<rc[1], rc[2]>> THEN {"point of a point"} ELSE {})
(***************************************************************************)
(* A geometry that can be used: every ring has at least three positions    *)
(* and is closed, every line at least two (a WKB ring without positions    *)
(* is let pass).                                                           *)
(***************************************************************************)
RECURSIVE Usable(_)
UsableRing(r) == r = <<>> \/ (Len(r) >= 3 /\ DEq(r[1][1], r[Len(r)][1]) /\ DEq(r[1][2], r[Len(r)][2]))
Usable(o) ==
    /\ o.t \in 1..7 /\ o.d \in 2..4
    /\ o.l = <<>> \/ Len(o.l) >= 2
    /\ \A i \in 1..Len(o.ml) : o.ml[i] = <<>> \/ Len(o.ml[i]) >= 2
    /\ \A i \in 1..Len(o.r) : UsableRing(o.r[i])
    /\ \A i \in 1..Len(o.mr) : \A k \in 1..Len(o.mr[i]) : UsableRing(o.mr[i][k])
    /\ \A i \in 1..Len(o.c) : Usable(o.c[i])
BadAny(e) == IF (e.b = <<>> /\ e.g.t = 0) \/ IsErr(e.g) \/ (e.g.t >= 1 /\ Usable(e.g)) THEN {} ELSE {"neither a usable geometry nor an error"}
Bad(e) == CASE e.k = "dec" -> BadDec(e) [] e.k = "enc" -> BadEnc(e) [] e.k = "buf" -> BadBuf(e) [] e.k = "len" -> BadLen(e) [] e.k = "rt" -> BadRt(e)
            [] e.k = "auto" -> BadAuto(e) [] e.k = "gbin" -> BadBin(e) [] OTHER -> BadAny(e)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l+1
Spec == Init /\ [][Next]_l
=============================================================================
