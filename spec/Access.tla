------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* Objects as values, what the constructors make of them, and what every   *)
(* accessor must return, for absent objects and indexes out of range too.  *)
(* An object: k: "no" (nothing), "ring", "line", "poly", "geom", "err";    *)
(*  t: type, z, m: dimensions, none: made empty; c: the positions of a     *)
(*  line, rings of a polygon, points, or members; x: extra coordinates;    *)
(*  w: the message of an error                                             *)
(* A construction step: op, d: dimensions ("", "z", "m", "zm"), a: earlier *)
(* objects (0: nothing), p: positions, x: extra coordinates, nx: how many  *)
(* of them were claimed, nh: how many holes were claimed, t: type, w: text *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
No == [k |-> "no", t |-> 0, z |-> 0, m |-> 0, none |-> FALSE, c |-> <<>>, x |-> <<>>, w |-> <<>>]
Obj(k, t, c) == [No EXCEPT !.k = k, !.t = t, !.c = c]
Z(d) == IF d \in {"z", "zm"} THEN 1 ELSE 0
M(d) == IF d \in {"m", "zm"} THEN 1 ELSE 0
With(v, s) == [v EXCEPT !.z = Z(s.d), !.m = M(s.d), !.x = SubSeq(s.x, 1, IF s.nx < 0 THEN 0 ELSE s.nx)]
\* the object that step s makes, the objects o having been made
Make(s, o) ==
    LET A(i) == IF s.a[i] = 0 THEN No ELSE o[s.a[i]]
        n == Len(s.a)
    IN CASE s.op = "ring"  -> Obj("ring", 3, <<s.p>>)
         [] s.op = "line"  -> Obj("line", 2, s.p)
         [] s.op = "poly"  -> LET ext == A(1)  hs == [i \in 1..(n-1) |-> A(i+1)] IN
                              IF ext.k = "no" \/ \E i \in 1..(n-1) : hs[i].k = "no" THEN No
                              ELSE IF n = 1 /\ s.nh = 0 THEN ext
                              ELSE Obj("poly", 3, ext.c \o [i \in 1..(n-1) |-> hs[i].c[1]])
         [] s.op \in {"gline", "gpoly"} -> IF s.d = "" THEN A(1) ELSE With(Obj("geom", A(1).t, A(1).c), s)
         [] s.op = "mp"    -> With(Obj("geom", 4, s.p), s)
         [] s.op \in {"ml", "mpoly", "gc"} -> With(Obj("geom", CASE s.op = "ml" -> 5 [] s.op = "mpoly" -> 6 [] OTHER -> 7,
                                                       [i \in 1..n |-> IF s.op = "gc" THEN A(i) ELSE A(i).c]), s)
         [] s.op = "pt"    -> [Obj("geom", 1, s.p) EXCEPT !.z = Z(s.d), !.m = M(s.d), !.x = s.x]
         [] s.op = "empty" -> [Obj("geom", s.t, <<>>) EXCEPT !.none = TRUE]
         [] s.op = "err"   -> [Obj("err", 0, <<>>) EXCEPT !.w = s.w]
         [] s.op \in {"clone", "copy"} -> A(1)
RECURSIVE MakeAll(_, _)
MakeAll(prog, o) == IF Len(o) = Len(prog) THEN o ELSE MakeAll(prog, Append(o, Make(prog[Len(o)+1], o)))
-----------------------------------------------------------------------------
O2 == <<0, 0>>
O4 == <<0, 0, 0, 0>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Box(_)
Box(ps) == IF Len(ps) = 1 THEN <<ps[1][1], ps[1][2], ps[1][1], ps[1][2]>>
           ELSE LET r == Box(Tail(ps)) IN <<Min2(ps[1][1], r[1]), Min2(ps[1][2], r[2]), Max2(ps[1][1], r[3]), Max2(ps[1][2], r[4])>>
RECURSIVE Join(_)
Join(rs) == IF rs = <<>> THEN O4 ELSE IF Len(rs) = 1 THEN rs[1]
            ELSE LET r == Join(Tail(rs)) IN <<Min2(rs[1][1], r[1]), Min2(rs[1][2], r[2]), Max2(rs[1][3], r[3]), Max2(rs[1][4], r[4])>>
\* what "-2 up to two past the end, and both ends of int" give: f inside, other outside
Around(n, f(_), other) == [j \in 1..(n+6) |-> IF 3 <= j /\ j <= n+2 THEN f(j-2) ELSE other]
Closed(p) == p[1] = p[Len(p)]
NSegs(p, ring) == LET n == Len(p) IN IF n = 0 THEN 0 ELSE IF ~ring THEN n-1 ELSE IF n < 3 THEN 0 ELSE IF Closed(p) THEN n-1 ELSE n
RectOf(p, ring) == IF Len(p) < 2 THEN O4 ELSE Box(p)
RECURSIVE IsEmpty(_)
ShapeEmpty(t, c) == IF t = 2 THEN Len(c) < 2 ELSE c = <<>> \/ Len(c[1]) < 3
IsEmpty(v) ==
    CASE v.k = "no" \/ v.none -> TRUE
      [] v.t = 1 -> FALSE
      [] v.t \in {2, 3} -> ShapeEmpty(v.t, v.c)
      [] v.t = 4 -> v.c = <<>>
      [] v.t \in {5, 6} -> \A i \in 1..Len(v.c) : ShapeEmpty(v.t-3, v.c[i])
      [] OTHER -> \A i \in 1..Len(v.c) : IsEmpty(v.c[i])
RECURSIVE Rect(_)
Rect(v) ==
    LET n == Len(v.c)
        some == SelectSeq([i \in 1..n |-> i], LAMBDA i : IF v.t = 7 THEN ~IsEmpty(v.c[i]) ELSE v.t = 4 \/ ~ShapeEmpty(v.t-3, v.c[i]))
    IN CASE v.k = "no" \/ v.none -> O4
         [] v.t = 1 -> Box(v.c)
         [] v.t = 2 -> RectOf(v.c, FALSE)
         [] v.t = 3 -> RectOf(v.c[1], TRUE)
         [] OTHER -> Join([i \in 1..Len(some) |-> LET c == v.c[some[i]] IN
                           CASE v.t = 4 -> Box(<<c>>) [] v.t = 5 -> RectOf(c, FALSE) [] v.t = 6 -> RectOf(c[1], TRUE) [] OTHER -> Rect(c)])
NPos(v) == CASE v.t \in {2, 4} -> Len(v.c)
             [] v.t \in {3, 5} -> LET S[i \in 0..Len(v.c)] == IF i = 0 THEN 0 ELSE S[i-1] + Len(v.c[i]) IN S[Len(v.c)]
             [] v.t = 6 -> LET S[i \in 0..Len(v.c)] == IF i = 0 THEN 0 ELSE S[i-1] + LET T[j \in 0..Len(v.c[i])] == IF j = 0 THEN 0 ELSE T[j-1] + Len(v.c[i][j]) IN T[Len(v.c[i])] IN S[Len(v.c)]
Range1(x, k, from) == LET I == {i \in 1..Len(x) : i % k = from % k} IN
    <<x[CHOOSE i \in I : \A j \in I : x[i] <= x[j]], x[CHOOSE i \in I : \A j \in I : x[i] >= x[j]]>>
Differ(name, got, want) == IF got = want THEN {} ELSE {<<name, ToString(got), ToString(want)>>}
-----------------------------------------------------------------------------
\* the record o of a ring's or line's accessors
BadSeries(v, o) ==
    LET no == v.k = "no"
        ring == v.k = "ring"
        p == IF no THEN <<>> ELSE IF ring THEN v.c[1] ELSE v.c
        ns == NSegs(p, ring)
    IN Differ("num_points", o.np, Len(p)) \cup Differ("num_segments", o.ns, ns) \cup Differ("points", o.pts, p)
       \cup Differ("point_at", o.pat, Around(Len(p), LAMBDA i : p[i], O2))
       \cup Differ("segment_at", o.seg, Around(ns, LAMBDA i : <<p[i], p[(i%Len(p))+1]>>, <<O2, O2>>))
       \cup Differ("rect", o.rect, RectOf(p, ring))
       \cup (IF no THEN Differ("measures of nothing", o.meas, <<0, 0, 0, 0, 0, 0, 0>>) \cup Differ("points of nothing", o.hp, 0) ELSE {})
       \cup (IF \A i \in 1..Len(o.nolev) : o.nolev[i] = 0 THEN {} ELSE {<<"num_rects of no level", ToString(o.nolev), "">>})
       \cup (IF \A i \in 1..Len(o.norect) : o.norect[i] = O4 THEN {} ELSE {<<"rectangle that is not there", ToString(o.norect), "">>})
BadPoly(v, o) ==
    LET no == v.k = "no"
        n == IF no THEN 0 ELSE Len(v.c) - 1
    IN Differ("exterior", o.ext, IF no THEN <<>> ELSE <<v.c[1]>>) \cup Differ("num_holes", o.nh, n)
       \cup Differ("hole_at", o.h, Around(n, LAMBDA i : <<v.c[i+1]>>, <<>>))
       \cup Differ("poly rect", o.rect, IF no THEN O4 ELSE RectOf(v.c[1], TRUE))
       \cup (IF no THEN Differ("measures of no polygon", o.meas, <<0, 0>>) ELSE {})
RECURSIVE BadGeom(_, _)
BadGeom(v, o) ==
    LET no == v.k = "no"
        d == IF no THEN 0 ELSE 2 + v.z + v.m
        r == Rect(v)
        n == [i \in 1..4 |-> IF ~no /\ v.t = 3+i THEN Len(v.c) ELSE 0]
        n0 == n[1] + n[2] + n[3] + n[4]
        multi == v.t \in 2..6
        pt == v.t = 1 /\ ~v.none
        x == IF multi THEN v.x ELSE <<>>
        Line(c) == <<<<c>>>>
        g == Around(n0, LAMBDA i : IF v.t = 7 THEN 1 ELSE 0, 0)
    IN IF v.k = "err" THEN Differ("error", o.err, <<v.w>>) \cup Differ("extra_json of an error", o.xj, <<>>)
       ELSE Differ("typeof", o.t, v.t)
       \cup Differ("flags", o.f, <<0, 0, d, v.z, v.m, IF IsEmpty(v) THEN 1 ELSE 0>>)
       \cup Differ("rect", o.rect, r)
       \cup Differ("point", o.c2, IF pt THEN <<2*v.c[1][1], 2*v.c[1][2]>> ELSE <<r[1]+r[3], r[2]+r[4]>>)
       \cup Differ("line", o.line, IF v.t = 2 /\ ~v.none THEN Line(v.c) ELSE <<>>)
       \cup Differ("poly", o.poly, IF v.t = 3 /\ ~v.none THEN <<v.c>> ELSE <<>>)
       \cup Differ("counts", o.n, n)
       \cup Differ("point_at", o.pat, Around(n0, LAMBDA i : IF v.t = 4 THEN v.c[i] ELSE O2, O2))
       \cup Differ("line_at", o.lat, Around(n0, LAMBDA i : IF v.t = 5 THEN Line(v.c[i]) ELSE <<>>, <<>>))
       \cup Differ("poly_at", o.yat, Around(n0, LAMBDA i : IF v.t = 6 THEN <<v.c[i]>> ELSE <<>>, <<>>))
       \cup Differ("geometry_at", [i \in 1..Len(o.gat) |-> Len(o.gat[i])], g)
       \cup (IF v.t = 7 /\ Len(o.gat) = n0+6 THEN UNION {IF o.gat[i+2] = <<>> THEN {} ELSE BadGeom(v.c[i], o.gat[i+2][1]) : i \in 1..n0} ELSE {})
       \cup Differ("extra_coords", <<o.nx, o.hx, o.xc>>, <<Len(x), IF x = <<>> THEN 0 ELSE 1, x>>)
       \cup Differ("z and m", o.zm, <<IF pt /\ v.z = 1 THEN v.x[1] ELSE 0, IF pt /\ v.m = 1 THEN v.x[1+v.z] ELSE 0>>)
       \cup Differ("extra_json", o.xj, <<>>)
       \cup (IF no THEN Differ("error of nothing", o.err # <<>>, TRUE) ELSE Differ("error", o.err, <<>>))
       \cup (IF no THEN Differ("fullrect of nothing", o.fr, <<>>)
             ELSE IF v.t = 7 THEN Differ("fullrect", SubSeq(o.fr, 1, 2), <<<<r[1], r[3]>>, <<r[2], r[4]>>>>)
             ELSE Differ("fullrect dims", Len(o.fr), d)
                  \cup Differ("fullrect", SubSeq(o.fr, 1, 2), <<<<r[1], r[3]>>, <<r[2], r[4]>>>>)
                  \cup (IF d > 2 /\ (pt \/ (multi /\ Len(x) = (d-2)*NPos(v) /\ x # <<>>))
                        THEN Differ("fullrect", SubSeq(o.fr, 3, d), [i \in 1..(d-2) |-> Range1(v.x, d-2, i)]) ELSE {}))
       \cup Differ("memsize", o.ms, IF no THEN 0 ELSE 1)
Kind(v) == CASE v.k = "no" -> 0 [] v.k = "ring" -> 2 [] v.k = "line" -> 3 [] v.k = "poly" -> 4 [] OTHER -> 1
=============================================================================
