------------------------------- MODULE EnvTrace -------------------------------
(***************************************************************************)
(* A recorded history of the environment machine.  e.h: the steps (EnvGen);*)
(* e.o[j]: observations after step j: s, all objects held, each            *)
(* [slot, series], series: [np, closed, ring, spread, lv, mem] of the      *)
(* rings and lines of the object; t: WKT and GeoJSON of the geometry e.g;  *)
(* e.twin: [kind, sp, np, closed, ring, mem]: memory of series made with   *)
(* explicit options.                                                       *)
(***************************************************************************)
EXTENDS Env, GeoText, TraceBase
VARIABLE l
Step(st, h) ==
    LET With(s, v) == [st EXCEPT !.m = [x \in DOMAIN st.m \cup {s} |-> IF x = s THEN v ELSE st.m[x]]]
    IN CASE h.op = "ix" -> [st EXCEPT !.e = SetIndex(st.e, h.kind)]
         [] h.op = "spread" -> [st EXCEPT !.e = SetSpread(st.e, h.n)]
         [] h.op = "fixed" -> [st EXCEPT !.e = SetFixed(st.e, h.n)]
         [] h.op = "make" -> With(h.s, [eff |-> Eff(st.e, <<h.kind, h.d>>), n |-> h.n, shape |-> h.shape])
         [] h.op \in {"clone", "copy"} -> With(h.s, st.m[h.d])
         [] h.op = "free" -> [st EXCEPT !.m = [x \in DOMAIN st.m \ {h.s} |-> st.m[x]]]
RECURSIVE States(_, _)
States(h, ss) == IF Len(ss) > Len(h) THEN ss ELSE States(h, Append(ss, Step(ss[Len(ss)], h[Len(ss)])))
BadSer(v, x) ==
    (IF x.np = v.n THEN {} ELSE {<<"positions", ToString(x)>>})
    \cup (IF x.spread = Spread(v.eff, x.np) THEN {} ELSE {<<"spread", ToString(v), ToString(x)>>})
    \cup (IF x.lv = Levels(v.eff, x.np, x.closed, x.ring) THEN {} ELSE {<<"levels", ToString(v), ToString(x)>>})
Bad(e) ==
    LET st == States(e.h, <<[e |-> Start, m |-> << >>]>>)
        J == 1..Len(e.h)
        \* what the memory of series was, by what they are
        seen == UNION {UNION {{<<<<x.np, x.closed, x.ring, Build(st[j+1].m[r.slot].eff, x.np, x.ring)>>, x.mem>> : x \in {r.series[i] : i \in 1..Len(r.series)}}
                              : r \in {e.o[j].s[i] : i \in 1..Len(e.o[j].s)}} : j \in J}
        twins == {<<<<x.np, x.closed, x.ring, Build(<<x.kind, Clamp(x.sp)>>, x.np, x.ring)>>, x.mem>> : x \in {e.twin[i] : i \in 1..Len(e.twin)}}
        all == seen \cup twins
        v == View(e.g)
    IN UNION {LET o == e.o[j]  m == st[j+1].m IN
              (IF {o.s[i].slot : i \in 1..Len(o.s)} = DOMAIN m THEN {} ELSE {<<"held", j>>})
              \cup UNION {UNION {{<<"step", j, o.s[i].slot>> \o b : b \in BadSer(m[o.s[i].slot], o.s[i].series[k])} : k \in 1..Len(o.s[i].series)} : i \in {i \in 1..Len(o.s) : o.s[i].slot \in DOMAIN m}}
              \cup (IF Departs(EncWkt(v), o.t[1], st[j+1].e.fx = 1, FALSE) = 0 THEN {} ELSE {<<"WKT", j>>})
              \cup (IF Departs(EncJson(v), o.t[2], st[j+1].e.fx = 1, FALSE) = 0 THEN {} ELSE {<<"GeoJSON", j>>}) : j \in J}
       \cup {<<"memory", ToString(a)>> : a \in {a \in all : \E b \in all : a[1] = b[1] /\ a[2] # b[2]}}
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l+1
Spec == Init /\ [][Next]_l
=============================================================================
