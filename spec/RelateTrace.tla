----------------------------- MODULE RelateTrace -----------------------------
(***************************************************************************)
(* Checks recorded relations against Planar.  An event                     *)
(*   [id, a, b, r]  r: 16 recorded answers (0/1): equals, intersects,      *)
(*   disjoint, contains, within, covers, coveredby, touches of (a,b), and  *)
(*   the same eight of (b,a).                                              *)
(* m: which of the eight columns this check decides.                       *)
(***************************************************************************)
EXTENDS Planar, TraceBase

VARIABLE l
Swap == <<1, 2, 3, 5, 4, 7, 6, 8>>
FillCols == {1, 4, 5, 6, 7}
Bad(e) ==
    LET x == Relations(e.a, e.b)
        K == {e.m[i] : i \in 1..Len(e.m)} \ (IF x.fill THEN FillCols ELSE {})
    IN {k \in K : (e.r[k] = 1) # x.v[k]} \cup
       {8+k : k \in {k \in K : (e.r[8+k] = 1) # x.v[Swap[k]]}}
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l+1
Spec == Init /\ [][Next]_l
=============================================================================
