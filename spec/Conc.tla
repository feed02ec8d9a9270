--------------------------------- MODULE Conc ---------------------------------
(***************************************************************************)
(* Memory as several threads see it (the release and acquire rules of C11, *)
(* with vector clocks).  Steps: [k, t, b, lo, hi, mo]                      *)
(*  k: "r", "w" plain read and write of bytes lo..hi of block b;           *)
(*     "ld", "st", "rmw" atomic ones; "fence"; "new", "free" of block b    *)
(*  t: thread (1..); mo: 0 relaxed, 1 consume, 2 acquire, 3 release,       *)
(*     4 both, 5 sequentially consistent                                   *)
(* Block 0 is the static memory.  A state has C: what each thread has      *)
(* seen, RF: at its last release fence, PA: what an acquire fence would    *)
(* let it see, L: what atomics carry, A: accesses to the live blocks,      *)
(* bad: complaints.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Acq(mo) == mo \in {1, 2, 4, 5}
Rel(mo) == mo \in {3, 4, 5}
Zero(n) == [i \in 1..n |-> 0]
Join(a, b) == [i \in 1..Len(a) |-> IF a[i] > b[i] THEN a[i] ELSE b[i]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* n threads start, all having seen what made the blocks of B
Begin(n, B) == [C |-> [t \in 1..n |-> [i \in 1..n |-> IF i = t THEN 1 ELSE 0]], RF |-> [t \in 1..n |-> Zero(n)], PA |-> [t \in 1..n |-> Zero(n)],
                L |-> << >>, A |-> [b \in B \cup {0} |-> {}], bad |-> {}]
Live(s) == DOMAIN s.A \ {0}
Access(s, e, w, at, lo, hi) ==
    IF e.b \notin DOMAIN s.A THEN [s EXCEPT !.bad = @ \cup {<<"used after it was freed", e.t>>}]
    ELSE LET c == s.C[e.t]
             race == {a \in s.A[e.b] : a.t # e.t /\ a.lo <= hi /\ lo <= a.hi /\ (w \/ a.w) /\ ~(at /\ a.at) /\ a.clk > c[a.t]}
         IN [s EXCEPT !.A[e.b] = @ \cup {[t |-> e.t, clk |-> c[e.t], lo |-> lo, hi |-> hi, w |-> w, at |-> at]},
                      !.bad = @ \cup {<<"race", a.t, e.t>> : a \in race}]
Tick(s, t) == [s EXCEPT !.C[t][t] = @+1]
Carried(s, e) == IF <<e.b, e.lo>> \in DOMAIN s.L THEN s.L[<<e.b, e.lo>>] ELSE Zero(Len(s.C))
See(s, e) == IF Acq(e.mo) THEN [s EXCEPT !.C[e.t] = Join(@, Carried(s, e))] ELSE [s EXCEPT !.PA[e.t] = Join(@, Carried(s, e))]
Give(s, e, was) == LET g == Join(was, IF Rel(e.mo) THEN s.C[e.t] ELSE s.RF[e.t])
                       s2 == [s EXCEPT !.L = Put(@, <<e.b, e.lo>>, g)]
                   IN IF Rel(e.mo) THEN Tick(s2, e.t) ELSE s2
MemStep(s, e) ==
    CASE e.k = "r" -> Access(s, e, FALSE, FALSE, e.lo, e.hi)
      [] e.k = "w" -> Access(s, e, TRUE, FALSE, e.lo, e.hi)
      [] e.k = "ld" -> See(Access(s, e, FALSE, TRUE, e.lo, e.hi), e)
      [] e.k = "st" -> Give(Access(s, e, TRUE, TRUE, e.lo, e.hi), e, Zero(Len(s.C)))
      [] e.k = "rmw" -> LET s2 == See(Access(s, e, TRUE, TRUE, e.lo, e.hi), e) IN Give(s2, e, Carried(s2, e))
      [] e.k = "fence" -> LET s2 == IF Acq(e.mo) THEN [s EXCEPT !.C[e.t] = Join(@, s.PA[e.t])] ELSE s
                          IN IF Rel(e.mo) THEN Tick([s2 EXCEPT !.RF[e.t] = s2.C[e.t]], e.t) ELSE s2
      [] e.k = "new" -> [s EXCEPT !.A = Put(@, e.b, {})]
      [] e.k = "free" -> IF e.b \notin Live(s) THEN [s EXCEPT !.bad = @ \cup {<<"freed twice", e.t>>}]
                         ELSE LET s2 == Access(s, e, TRUE, FALSE, 0, 1000000000) IN [s2 EXCEPT !.A = [b \in DOMAIN @ \ {e.b} |-> @[b]]]
=============================================================================
