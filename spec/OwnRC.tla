------------------------------- MODULE OwnRC -------------------------------
(***************************************************************************)
(* The design of the library: every object counts the references to it     *)
(* (handles and places in containers); letting go of the last one gives    *)
(* its memory back and lets go of its members in turn.  Checked against    *)
(* Own: the memory that is taken is that of the live objects, after every  *)
(* operation, and the counters are the numbers of references.              *)
(* Mut names a mistake to be found, which shows that the check can fail.   *)
(***************************************************************************)
EXTENDS Own, TLC
CONSTANTS Slots, Ids, MaxMem, Mut
VARIABLES obj,  \* ghost: what Own says is there
          h, rc, mem, heap, work
vars == <<obj, h, rc, mem, heap, work>>
Init == obj = << >> /\ h = << >> /\ rc = [i \in Ids |-> 0] /\ mem = [i \in Ids |-> << >>] /\ heap = {} /\ work = << >>
Idle == work = << >>
FreeSlots == Slots \ DOMAIN h
\* a new object with the members m, which are retained
Count(m, i) == Cardinality({j \in 1..Len(m) : m[j] = i})
New(m) ==
    /\ Idle /\ FreeSlots # {} /\ Ids \ heap # {}
    /\ LET s == CHOOSE s \in FreeSlots : \A x \in FreeSlots : s <= x
           i == CHOOSE i \in Ids \ heap : \A x \in Ids \ heap : i <= x
       IN /\ heap' = heap \cup {i}
          /\ mem' = [mem EXCEPT ![i] = m]
          /\ rc' = [j \in Ids |-> IF j = i THEN 1 ELSE rc[j] + (IF Mut = "no retain of second" /\ Count(m, j) > 1 THEN 1 ELSE Count(m, j))]
          /\ h' = With(h, s, [o |-> i, k |-> "geom"])
          /\ obj' = With(obj, i, [mem |-> m])
    /\ UNCHANGED work
Make == \E n \in 0..MaxMem : \E a \in [1..n -> DOMAIN h] : New([i \in 1..n |-> h[a[i]].o])
Clone == /\ Idle /\ FreeSlots # {}
         /\ \E s \in DOMAIN h, d \in FreeSlots :
              /\ rc' = IF Mut = "clone does not retain" THEN rc ELSE [rc EXCEPT ![h[s].o] = @+1]
              /\ h' = With(h, d, h[s])
         /\ UNCHANGED <<obj, mem, heap, work>>
TakeM == /\ Idle /\ FreeSlots # {}
         /\ \E s \in DOMAIN h, d \in FreeSlots : \E j \in 1..Len(mem[h[s].o]) :
              /\ rc' = [rc EXCEPT ![mem[h[s].o][j]] = @+1]
              /\ h' = With(h, d, [o |-> mem[h[s].o][j], k |-> "geom"])
         /\ UNCHANGED <<obj, mem, heap, work>>
Free == /\ Idle
        /\ \E s \in DOMAIN h : work' = <<h[s].o>> /\ h' = Without(h, s) /\ obj' = Prune(obj, Without(h, s))
        /\ UNCHANGED <<rc, mem, heap>>
\* one reference is let go of
Release == /\ work # << >>
           /\ LET i == work[1] IN
              IF rc[i] = 1 \/ (Mut = "frees early" /\ rc[i] = 2)
              THEN /\ heap' = heap \ {i}
                   /\ work' = (IF Mut = "keeps members" THEN << >> ELSE mem[i]) \o Tail(work)
                   /\ rc' = [rc EXCEPT ![i] = 0]
              ELSE heap' = heap /\ rc' = [rc EXCEPT ![i] = @-1] /\ work' = Tail(work)
           /\ UNCHANGED <<obj, h, mem>>
Next == Make \/ Clone \/ TakeM \/ Free \/ Release
Spec == Init /\ [][Next]_vars
RECURSIVE Refs(_, _)
Refs(S, i) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Count(mem[x], i) + Refs(S \ {x}, i)
Right == Idle => /\ heap = Live(obj, h)
                 /\ \A i \in heap : rc[i] = Cardinality({s \in DOMAIN h : h[s].o = i}) + Refs(heap, i)
\* nothing is let go of twice, and nothing that is used has gone
Sound == \A j \in 1..Len(work) : work[j] \in heap
=============================================================================
