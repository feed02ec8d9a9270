------------------------------ MODULE LocTrace ------------------------------
(***************************************************************************)
(* Where points are relative to a geometry.  An event                      *)
(*   [id, g, q, r]  q: points; r: for each of them eight recorded answers: *)
(*   intersects_xy(g), intersects(g,q), covers(g,q), contains(g,q),        *)
(*   touches(g,q), within(q,g), intersects(q,g), touches(q,g)              *)
(*   (k = "loc"), or                                                       *)
(*   [id, g, b, r]  a box <<x0, y0, x1, y1>> and whether g intersects it   *)
(*   (k = "box").                                                          *)
(***************************************************************************)
EXTENDS Planar, TraceBase
VARIABLE l

\* 0 outside, 1 boundary, 2 interior of a leaf, from its edges E
Where(f, E, p) ==
    CASE f.t = 1 -> IF f.p = p THEN 2 ELSE 0
      [] f.t = 2 -> IF ~OnAny(Pt(p), E) THEN 0 ELSE IF p \in LineBoundary(f.l) THEN 1 ELSE 2
      [] f.t = 3 -> LocIn(Pt(p), E)
Edges(f) == CASE f.t = 1 -> << >> [] f.t = 2 -> Segs(f.l) [] f.t = 3 -> PolyEdges(f.r)

BadLoc(e) ==
    LET F == Leaves(e.g)
        EE == TLCEval([k \in 1..Len(F) |-> TLCEval(Edges(F[k]))])
        want(p) == LET w == {Where(F[k], EE[k], p) : k \in 1..Len(F)}
                       i == w \cap {1, 2} # {}
                       c == 2 \in w
                       t == i /\ ~c
                   IN <<i, i, i, c, t, c, i, t>>
    IN UNION {LET w == TLCEval(want(e.q[j]))
              IN {<<j, e.q[j], k>> : k \in {k \in 1..8 : (e.r[j][k] = 1) # w[k]}} : j \in 1..Len(e.q)}

\* a box as a geometry: a point, a segment, or a polygon
Box(b) == IF b[1] = b[3] /\ b[2] = b[4] THEN [t |-> 1, p |-> <<b[1], b[2]>>]
          ELSE IF b[1] = b[3] \/ b[2] = b[4] THEN [t |-> 2, l |-> <<<<b[1], b[2]>>, <<b[3], b[4]>>>>]
          ELSE [t |-> 3, r |-> <<<<<<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>>, <<b[1], b[2]>>>>>>]
BadBox(e) == {j \in 1..Len(e.b) : (e.r[j] = 1) # Relations(e.g, Box(e.b[j])).v[2]}

Bad(e) == IF e.k = "loc" THEN BadLoc(e) ELSE BadBox(e)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l+1
Spec == Init /\ [][Next]_l
=============================================================================
