----------------------------- MODULE AccessTrace -----------------------------
(***************************************************************************)
(* Accessors.  k = "acc": the steps prog made objects; o is the record of  *)
(* all accessors of the i-th of them (0: of nothing).  k = "none": what    *)
(* functions answer when there is no object.                               *)
(***************************************************************************)
EXTENDS Access, TraceBase
VARIABLE l
BadAcc(e) ==
    LET v == IF e.i = 0 THEN No ELSE MakeAll(e.prog, <<>>)[e.i]
        o == e.o
    IN (IF (o.k = 0) # (v.k = "no") THEN {<<"made", o.k, v.k>>}
        ELSE BadGeom(v, o.g)
          \cup UNION {BadSeries(IF o.k = 0 \/ v.k = "ring" THEN v ELSE [v EXCEPT !.k = "ring", !.c = <<v.c[1]>>], o.s[j]) : j \in 1..Len(o.s)}
          \cup UNION {BadSeries(v, o.l[j]) : j \in 1..Len(o.l)}
          \cup UNION {BadPoly(v, o.y[j]) : j \in 1..Len(o.y)})
\* texts of the types 0..8, -1 and 100
Names == <<"Unknown", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection", "Unknown", "Unknown", "Unknown">>
BadNone(e) ==
    LET o == e.o IN
    Differ("predicates of nothing", o.pred, [i \in 1..8 |-> IF i = 3 THEN <<1, 1, 1, 1>> ELSE <<0, 0, 0, 0>>])
    \cup Differ("intersections of nothing", o.isect, <<0, 0>>)
    \cup (IF \A i \in 1..5 : o.w[i][1] = 0 THEN {} ELSE {<<"nothing is written", ToString(o.w), "">>})
    \cup Differ("callbacks for nothing", o.calls, 0) \cup Differ("made of nothing", o.made, 0)
    \cup Differ("type_string", o.ts, Names)
Bad(e) == IF e.k = "acc" THEN BadAcc(e) ELSE BadNone(e)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l+1
Spec == Init /\ [][Next]_l
=============================================================================
