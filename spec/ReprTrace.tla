------------------------------ MODULE ReprTrace ------------------------------
(***************************************************************************)
(* One pair of geometries (or one query), many representations or index    *)
(* options: all of them give the answer of the model.                      *)
(*  k = "rel":  a, b, rs: recorded answers (as in RelateTrace) of several  *)
(*     representations of the pair                                         *)
(*  k = "same": rows: answers that must all be the same                    *)
(*  k = "sets": rows: lists of hits that must be the same in any order     *)
(***************************************************************************)
EXTENDS Planar, TraceBase
VARIABLE l
Swap == <<1, 2, 3, 5, 4, 7, 6, 8>>
FillCols == {1, 4, 5, 6, 7}
BadRel(e) ==
    LET x == Relations(e.a, e.b)
        K == (1..8) \ (IF x.fill THEN FillCols ELSE {})
        Row(r) == {k \in K : (r[k] = 1) # x.v[k]} \cup {8+k : k \in {k \in K : (r[8+k] = 1) # x.v[Swap[k]]}}
    IN UNION {{<<i, k>> : k \in Row(e.rs[i])} : i \in 1..Len(e.rs)}
       \cup {<<i, 0>> : i \in {i \in 1..Len(e.rs) : e.rs[i] # e.rs[1]}}
Range(s) == {s[i] : i \in 1..Len(s)}
Bad(e) == CASE e.k = "rel"  -> BadRel(e)
            [] e.k = "same" -> {i \in 1..Len(e.rows) : e.rows[i] # e.rows[1]}
            [] e.k = "sets" -> {i \in 1..Len(e.rows) : Range(e.rows[i]) # Range(e.rows[1]) \/ Len(e.rows[i]) # Len(e.rows[1])}
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l+1
Spec == Init /\ [][Next]_l
=============================================================================
