---------------------------- MODULE NearestTrace ----------------------------
(***************************************************************************)
(* Nearest-segment queries as a transition system: the state is the set of *)
(* segments already yielded; a step yields one of the nearest of the rest. *)
(* A query may end when the callback stopped it (after lim yields), when   *)
(* nothing is left, or when an allocation failed.                          *)
(* An event [a, ring, q, metric, lim, h, ok, nf]: h: <<i, dist, a, b>>     *)
(***************************************************************************)
EXTENDS Planar, TraceBase
VARIABLE l
SeriesSegs(pts, ring) ==
    LET n == Len(pts)
        m == IF ~ring THEN n-1 ELSE IF n < 3 THEN 0 ELSE IF pts[1] = pts[n] THEN n-1 ELSE n
    IN TLCEval([i \in 1..m |-> <<pts[i][1], pts[i][2], pts[(i%n)+1][1], pts[(i%n)+1][2]>>])
Off(v, a, b) == LET lo == Min2(a, b) hi == Max2(a, b) IN IF v < lo THEN lo-v ELSE IF v > hi THEN v-hi ELSE 0
Dist(s, q, metric) ==
    LET dx == Off(q[1], s[1], s[3])  dy == Off(q[2], s[2], s[4])
    IN CASE metric = 0 -> dx*dx + dy*dy [] metric = 1 -> dx+dy [] metric = 2 -> Max2(dx, dy)

\* may segment i be yielded when Rest remain?
MayYield(i, Rest, D) == i \in Rest /\ \A j \in Rest : D[i] <= D[j]
MayEnd(e, n) == IF e.nf > 0 THEN e.ok = 0
                ELSE e.ok = 1 /\ Len(e.h) = (IF e.lim > 0 THEN Min2(e.lim, n) ELSE n)
Bad(e) ==
    LET S == SeriesSegs(e.a, e.ring)  n == Len(S)
        D == TLCEval([i \in 1..n |-> Dist(S[i], e.q, e.metric)])
        valid == \A k \in 1..Len(e.h) : e.h[k][1]+1 \in 1..n
        rest == (1..n) \ {e.h[k][1]+1 : k \in 1..Len(e.h)}
        \* the chain of MayYield steps: each yield is nearest of what follows it
        chain == /\ Cardinality(rest) = n - Len(e.h)
                 /\ \A k \in 2..Len(e.h) : D[e.h[k-1][1]+1] <= D[e.h[k][1]+1]
                 /\ Len(e.h) > 0 => \A j \in rest : D[e.h[Len(e.h)][1]+1] <= D[j]
    IN IF ~valid THEN {<<"no such segment">>}
       ELSE (IF chain THEN {} ELSE {<<"order">>})
            \cup (IF MayEnd(e, n) THEN {} ELSE {<<"end", Len(e.h), n, e.ok>>})
            \cup {<<"segment or distance", e.h[k]>> : k \in {k \in 1..Len(e.h) :
                     LET x == e.h[k] IN x[2] # D[x[1]+1] \/ x[3] \o x[4] # S[x[1]+1]}}
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l+1
Spec == Init /\ [][Next]_l
=============================================================================
