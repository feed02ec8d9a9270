-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* Geometries as values: type t (1..7), whether positions have Z and M,    *)
(* whether it is a feature or feature collection, additional JSON members  *)
(* j, the positions s (nested as the type says) and the members c of a     *)
(* collection.  A position is a sequence of coordinates: doubles, or the   *)
(* texts of numbers.                                                       *)
(* ul: a feature without geometry; np: a feature whose properties are null *)
(***************************************************************************)
EXTENDS Dbl
Geo(t, z, m, s) == [t |-> t, z |-> z, m |-> m, ft |-> 0, fc |-> 0, j |-> <<>>, s |-> s, c |-> <<>>, ul |-> FALSE, np |-> FALSE]
Coll(c) == [Geo(7, 0, 0, <<>>) EXCEPT !.c = c]
\* an empty point, line or polygon has no dimensions
Point(z, m, p) == Geo(1, z, m, <<p>>)
NoPos(t) == Geo(t, 0, 0, <<>>)
RECURSIVE IsEmpty(_)
IsEmpty(g) == CASE g.t \in {1, 2, 3, 4} -> g.s = <<>>
                [] g.t \in {5, 6} -> \A i \in 1..Len(g.s) : g.s[i] = <<>>
                [] OTHER -> \A i \in 1..Len(g.c) : IsEmpty(g.c[i])
Dims(g) == 2 + g.z + g.m

(***************************************************************************)
(* What the accessors show (a record of the driver), as a value.  Missing  *)
(* extra coordinates count as zero.                                        *)
(***************************************************************************)
Tie(xy, off, x, k) == [i \in 1..Len(xy) |-> xy[i] \o [n \in 1..k |-> LET w == (off+i-1)*k+n IN IF w <= Len(x) THEN x[w] ELSE DZero]]
RECURSIVE Tie2(_, _, _, _), Tie3(_, _, _, _), Count2(_)
Tie2(l, off, x, k) == IF l = <<>> THEN <<>> ELSE <<Tie(l[1], off, x, k)>> \o Tie2(Tail(l), off+Len(l[1]), x, k)
Count2(l) == IF l = <<>> THEN 0 ELSE Len(l[1]) + Count2(Tail(l))
Tie3(l, off, x, k) == IF l = <<>> THEN <<>>
                      ELSE <<IF l[1] = <<<<>>>> THEN <<>> ELSE Tie2(l[1], off, x, k)>> \o Tie3(Tail(l), off+Count2(l[1]), x, k)
RECURSIVE View(_)
View(o) ==
    LET k == o.z + o.m IN
    [Geo(o.t, o.z, o.m,
        CASE o.t = 1 -> [i \in 1..Len(o.p) |-> o.p[i] \o (IF o.z = 1 THEN <<o.pz>> ELSE <<>>) \o (IF o.m = 1 THEN <<o.pm>> ELSE <<>>)]
          [] o.t = 2 -> Tie(o.l, 0, o.x, k)
          [] o.t = 3 -> IF o.r = <<<<>>>> THEN <<>> ELSE Tie2(o.r, 0, o.x, k)
          [] o.t = 4 -> Tie(o.mp, 0, o.x, k)
          [] o.t = 5 -> Tie2(o.ml, 0, o.x, k)
          [] o.t = 6 -> Tie3(o.mr, 0, o.x, k)
          [] OTHER -> <<>>)
     EXCEPT !.ft = o.ft, !.fc = o.fc, !.j = o.j, !.c = [i \in 1..Len(o.c) |-> View(o.c[i])]]

\* mode 0: the same bytes; 1: b is the double nearest to the text a
EqC(mode, a, b) == IF mode = 0 THEN a = b ELSE Nearest(Num(a), b)
EqP(mode, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : EqC(mode, a[i], b[i])
EqL(mode, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : EqP(mode, a[i], b[i])
EqR(mode, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : EqL(mode, a[i], b[i])
EqM(mode, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : EqR(mode, a[i], b[i])
\* Differences between the value g and what the accessors show.
RECURSIVE Diff(_, _, _)
Diff(mode, g, o) ==
    IF o.t # g.t THEN {"type"}
    ELSE LET v == View(o) IN
         (IF v.z = g.z /\ v.m = g.m /\ o.d = Dims(g) THEN {} ELSE {"dimensions"})
         \cup (IF v.ft = g.ft /\ v.fc = g.fc THEN {} ELSE {"feature"})
         \cup (IF v.j = g.j /\ o.hj = (IF g.j = <<>> THEN 0 ELSE 1) THEN {} ELSE {"members"})
         \cup (IF o.e = (IF IsEmpty(g) THEN 1 ELSE 0) THEN {} ELSE {"empty"})
         \cup (IF CASE g.t \in {1, 2, 4} -> EqL(mode, g.s, v.s) [] g.t \in {3, 5} -> EqR(mode, g.s, v.s)
                    [] g.t = 6 -> EqM(mode, g.s, v.s) [] OTHER -> TRUE THEN {} ELSE {"positions"})
         \cup (IF Len(g.c) # Len(o.c) THEN {"members count"} ELSE UNION {Diff(mode, g.c[i], o.c[i]) : i \in 1..Len(g.c)})
=============================================================================
