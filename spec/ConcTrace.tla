------------------------------- MODULE ConcTrace -------------------------------
(***************************************************************************)
(* Recorded runs of several threads under a chosen schedule.  e.n: how     *)
(* many threads, e.live: the blocks at the start, e.keep: those that none  *)
(* of the threads has a handle of, e.s: the memory steps of               *)
(* the library, each <<k, t, b, lo, hi, mo>>.  In the end only e.keep live. *)
(***************************************************************************)
EXTENDS Conc, TraceBase
VARIABLE l
Rec(x) == [k |-> x[1], t |-> x[2], b |-> x[3], lo |-> x[4], hi |-> x[5], mo |-> x[6]]
RECURSIVE Fold(_, _, _)
Fold(s, es, i) == IF i > Len(es) \/ s.bad # {} THEN s ELSE Fold(TLCEval(MemStep(s, Rec(es[i]))), es, i+1)
Bad(e) == LET s == Fold(Begin(e.n, {e.live[i] : i \in 1..Len(e.live)}), e.s, 1)
          IN IF s.bad # {} THEN s.bad ELSE LET K == {e.keep[i] : i \in 1..Len(e.keep)} IN IF Live(s) = K THEN {} ELSE {<<"never freed, or lost", Cardinality(Live(s) \ K), Cardinality(K \ Live(s))>>}
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l+1
Spec == Init /\ [][Next]_l
=============================================================================
