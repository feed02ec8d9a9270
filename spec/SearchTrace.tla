----------------------------- MODULE SearchTrace -----------------------------
(***************************************************************************)
(* Searches.                                                               *)
(*  k = "pair": all intersecting pairs of segments of two series a and b   *)
(*     (ra, rb: is it a ring); lim: stop after so many (0: never);         *)
(*     h: reported <<i, j, a_i, a_i+1, b_j, b_j+1>>                        *)
(*  k = "segs": q: pairs of segments; r: whether each intersects           *)
(*  k = "coll": members of a collection that meet a box: c: the members'   *)
(*     rectangles (<< >> for an empty one), b: the box, lim, h: reported   *)
(*     <<index, rectangle>>                                                *)
(***************************************************************************)
EXTENDS Planar, TraceBase
VARIABLE l

\* the segments of a series, zero-length ones included
SeriesSegs(pts, ring) ==
    LET n == Len(pts)
        closed == pts[1] = pts[n]
        m == IF ~ring THEN n-1 ELSE IF n < 3 THEN 0 ELSE IF closed THEN n-1 ELSE n
    IN TLCEval([i \in 1..m |-> <<pts[i][1], pts[i][2], pts[(i%n)+1][1], pts[(i%n)+1][2]>>])
Zero(s) == s[1] = s[3] /\ s[2] = s[4]
Apart(s, t) == \/ Max2(s[1], s[3]) < Min2(t[1], t[3]) \/ Max2(t[1], t[3]) < Min2(s[1], s[3])
               \/ Max2(s[2], s[4]) < Min2(t[2], t[4]) \/ Max2(t[2], t[4]) < Min2(s[2], s[4])
Common(s, t) == CASE Apart(s, t) -> FALSE
                  [] Zero(s) -> IF Zero(t) THEN s = t ELSE OnSeg(<<s[1], s[2], 1>>, t)
                  [] Zero(t) -> OnSeg(<<t[1], t[2], 1>>, s)
                  [] OTHER -> Meets(s, t) # {}

BadPair(e) ==
    LET A == SeriesSegs(e.a, e.ra)  B == SeriesSegs(e.b, e.rb)
        want == {ij \in (1..Len(A)) \X (1..Len(B)) : Common(A[ij[1]], B[ij[2]])}
        got == {<<e.h[k][1]+1, e.h[k][2]+1>> : k \in 1..Len(e.h)}
        n == Cardinality(want)
    IN {<<"unexpected", x>> : x \in got \ want}
       \cup (IF Cardinality(got) # Len(e.h) THEN {<<"repeated">>} ELSE {})
       \cup (IF e.lim = 0 \/ e.lim >= n THEN {<<"missing", x>> : x \in want \ got}
             ELSE IF Len(e.h) # e.lim THEN {<<"not stopped", Len(e.h), e.lim>>} ELSE {})
       \cup UNION {LET x == e.h[k]
                       ok == /\ x[1]+1 \in 1..Len(A) /\ x[2]+1 \in 1..Len(B)
                             /\ x[3] \o x[4] = A[x[1]+1] /\ x[5] \o x[6] = B[x[2]+1]
                   IN IF ok THEN {} ELSE {<<"wrong segment", x>>} : k \in 1..Len(e.h)}

BadSegs(e) == {<<k, e.q[k]>> : k \in {k \in 1..Len(e.q) : (e.r[k] = 1) # Common(e.q[k][1], e.q[k][2])}}

RectMeets(r, b) == r[1] <= b[3] /\ b[1] <= r[3] /\ r[2] <= b[4] /\ b[2] <= r[4]
BadColl(e) ==
    LET want == {i \in 1..Len(e.c) : e.c[i] # << >> /\ RectMeets(e.c[i], e.b)}
        got == {e.h[k][1]+1 : k \in 1..Len(e.h)}
        n == Cardinality(want)
    IN {<<"unexpected", x>> : x \in got \ want}
       \cup (IF Cardinality(got) # Len(e.h) THEN {<<"repeated">>} ELSE {})
       \cup (IF e.lim = 0 \/ e.lim >= n THEN {<<"missing", x>> : x \in want \ got}
             ELSE IF Len(e.h) # e.lim THEN {<<"not stopped", Len(e.h), e.lim>>} ELSE {})
       \cup {<<"wrong member", e.h[k]>> : k \in {k \in 1..Len(e.h) : e.h[k][1]+1 \notin 1..Len(e.c) \/ e.c[e.h[k][1]+1] # e.h[k][2]}}

Bad(e) == CASE e.k = "pair" -> BadPair(e) [] e.k = "segs" -> BadSegs(e) [] e.k = "coll" -> BadColl(e)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l+1
Spec == Init /\ [][Next]_l
=============================================================================
