------------------------------ MODULE WideTrace ------------------------------
(***************************************************************************)
(* Points, segments and triangles with coordinates of many digits.         *)
(*  k = "rel": a, b: corners; r: 16 recorded relations as in RelateTrace,  *)
(*     m: the columns to decide; small: the coordinates are few enough for *)
(*     Planar, which has to agree                                          *)
(*  k = "segs": q: pairs of segments; r: does each intersect               *)
(*  k = "loc": a: corners, q: points, r: answers for each as in LocTrace   *)
(***************************************************************************)
EXTENDS Planar, TraceBase, Wide
VARIABLE l
SwapW == <<1, 2, 3, 5, 4, 7, 6, 8>>
Shape(A) == CASE Len(A) = 1 -> [t |-> 1, p |-> A[1]] [] Len(A) = 2 -> [t |-> 2, l |-> A]
              [] Len(A) = 3 -> [t |-> 3, r |-> <<Append(A, A[1])>>]
BadRel(e) ==
    LET v == WRelations(e.a, e.b)
        K == {e.m[i] : i \in 1..Len(e.m)}
    IN {k \in K : (e.r[k] = 1) # v[k]} \cup {8+k : k \in {k \in K : (e.r[8+k] = 1) # v[SwapW[k]]}}
       \cup (IF e.small /\ Relations(Shape(e.a), Shape(e.b)).v # v THEN {<<"specifications differ", v>>} ELSE {})
BadSegs(e) == {<<k, e.q[k]>> : k \in {k \in 1..Len(e.q) : (e.r[k] = 1) # WSegsMeet(e.q[k][1], e.q[k][2])}}
BadLoc(e) ==
    LET A == WCcw(e.a)
        want(p) == LET w == WAt(p, A)  i == w > 0  c == w = 2  t == w = 1 IN <<i, i, i, c, t, c, i, t>>
    IN UNION {LET w == want(e.q[j]) IN {<<j, e.q[j], k>> : k \in {k \in 1..8 : (e.r[j][k] = 1) # w[k]}} : j \in 1..Len(e.q)}
Bad(e) == CASE e.k = "rel" -> BadRel(e) [] e.k = "segs" -> BadSegs(e) [] e.k = "loc" -> BadLoc(e)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l+1
Spec == Init /\ [][Next]_l
=============================================================================
