-------------------------------- MODULE ConcGen --------------------------------
(***************************************************************************)
(* The counting design under concurrency: block 1 is an object that holds  *)
(* block 2; each has a count at bytes 0..3.  Threads start with one handle *)
(* each of block 1 and run programs of                                     *)
(*   "c" clone, "m" a handle of the member, "r" read, "f", "g" free a      *)
(*   handle of the object, of the member.                                  *)
(* TLC explores every program and every interleaving of the memory steps;  *)
(* NoBad and AllFreed are the property, in the memory model of Conc.tla.   *)
(* Design: how the counting is written.  "code" is what the library does;  *)
(* "both", "seqcst" and "alone" (a look at whether the count is 1 first)   *)
(* are other right ways; the others are mistakes that must be found.       *)
(* Finished runs are printed, to be replayed as schedules.                 *)
(***************************************************************************)
EXTENDS Conc, Json
CONSTANTS Threads, Ops, Design, Emitting, Deep
VARIABLES mem, cnt, prog, todo, hist, whole
vars == <<mem, cnt, prog, todo, hist, whole>>
T == 1..Threads
\* programs: what the handles allow, ending with none
RECURSIVE Progs(_, _, _)
Progs(n, a, b) ==   \* n more operations, with a handles of the object and b of the member
    (IF a = 0 /\ b = 0 THEN {<< >>} ELSE {})
    \cup (IF n = 0 THEN {} ELSE
          (IF a > 0 THEN {<<"c">> \o p : p \in Progs(n-1, a+1, b)} \cup {<<"f">> \o p : p \in Progs(n-1, a-1, b)}
                         \cup {<<"r">> \o p : p \in Progs(n-1, a, b)}
                         \cup (IF Deep THEN {<<"m">> \o p : p \in Progs(n-1, a, b+1)} ELSE {}) ELSE {})
          \cup (IF b > 0 THEN {<<"g">> \o p : p \in Progs(n-1, a, b-1)} ELSE {}))
S(k, t, b, lo, hi, mo) == [k |-> k, t |-> t, b |-> b, lo |-> lo, hi |-> hi, mo |-> mo]
\* steps of letting go and of taking, by design
IncMo == IF Design = "seqcst" THEN 5 ELSE 0
DecMo == CASE Design \in {"code", "no fence", "alone"} -> 3 [] Design = "relaxed" -> 0 [] Design = "seqcst" -> 5 [] OTHER -> 4
\* a thread's remaining steps: "read", <<"inc", b>>, <<"dec", b>>, <<"look", b>>, <<"set", b, v>>, <<"end", b>>
Expand(op) == CASE op = "c" -> <<<<"inc", 1>>>> [] op = "m" -> <<<<"read", 1>>, <<"inc", 2>>>> [] op = "r" -> <<<<"read", 1>>, <<"read", 2>>>>
                [] op = "f" -> <<<<"dec", 1>>>> [] op = "g" -> <<<<"dec", 2>>>>
\* what follows when the count of b has gone to 0
Last(b) == (IF Design \in {"code", "alone"} THEN <<<<"fence", b>>>> ELSE << >>) \o (IF b = 1 THEN <<<<"read", 1>>, <<"dec", 2>>, <<"end", 1>>>> ELSE <<<<"end", 2>>>>)
Init == /\ prog \in [T -> Progs(Ops, 1, 0)] /\ whole = (IF Emitting THEN prog ELSE << >>)
        /\ cnt = <<Threads, 1>>   \* the object holds its member once
        /\ mem = Begin(Threads, {1, 2}) /\ todo = [t \in T |-> << >>] /\ hist = << >>
Go(t, st, rest, ms) == /\ mem' = ms /\ todo' = [todo EXCEPT ![t] = rest]
                       /\ hist' = IF Emitting /\ st[1] \in {"inc", "dec", "end", "look", "set"} THEN Append(hist, t) ELSE hist
Run(t) ==
    LET st == todo[t][1]  rest == Tail(todo[t])  b == IF Len(st) > 1 THEN st[2] ELSE 1
    IN CASE st[1] = "read" -> Go(t, st, rest, MemStep(mem, S("r", t, b, 8, 99, 0))) /\ UNCHANGED cnt
         [] st[1] = "inc" -> IF Design = "plain" THEN Go(t, st, rest, MemStep(MemStep(mem, S("r", t, b, 0, 3, 0)), S("w", t, b, 0, 3, 0))) /\ cnt' = [cnt EXCEPT ![b] = @+1]
                             ELSE Go(t, st, rest, MemStep(mem, S("rmw", t, b, 0, 3, IncMo))) /\ cnt' = [cnt EXCEPT ![b] = @+1]
         [] st[1] = "dec" -> IF Design = "look then dec"
                             THEN Go(t, st, (IF cnt[b] = 1 THEN Last(b) ELSE <<<<"set", b>>>>) \o rest, MemStep(mem, S("ld", t, b, 0, 3, 2))) /\ UNCHANGED cnt
                             ELSE IF Design = "alone" /\ Len(st) = 2
                             THEN Go(t, st, (IF cnt[b] = 1 THEN <<<<"end1", b>>>> ELSE <<<<"dec", b, "really">>>>) \o rest, MemStep(mem, S("ld", t, b, 0, 3, 2))) /\ UNCHANGED cnt
                             ELSE IF Design = "dec then look"
                             THEN Go(t, st, <<<<"look", b>>>> \o rest, MemStep(mem, S("rmw", t, b, 0, 3, 4))) /\ cnt' = [cnt EXCEPT ![b] = @-1]
                             ELSE Go(t, st, (IF cnt[b] = 1 THEN Last(b) ELSE << >>) \o rest, MemStep(mem, S("rmw", t, b, 0, 3, DecMo))) /\ cnt' = [cnt EXCEPT ![b] = @-1]
         [] st[1] = "end1" -> Go(t, st, Last(b) \o rest, mem) /\ cnt' = [cnt EXCEPT ![b] = 0]
         [] st[1] = "set" -> Go(t, st, rest, MemStep(mem, S("rmw", t, b, 0, 3, 4))) /\ cnt' = [cnt EXCEPT ![b] = @-1]
         [] st[1] = "look" -> Go(t, st, (IF cnt[b] = 0 THEN Last(b) ELSE << >>) \o rest, MemStep(mem, S("ld", t, b, 0, 3, 2))) /\ UNCHANGED cnt
         [] st[1] = "fence" -> Go(t, st, rest, MemStep(mem, S("fence", t, 0, 0, 0, 2))) /\ UNCHANGED cnt
         [] st[1] = "end" -> Go(t, st, rest, MemStep(mem, S("free", t, b, 0, 0, 0))) /\ UNCHANGED cnt
Start(t) == /\ todo[t] = << >> /\ prog[t] # << >>
            /\ todo' = [todo EXCEPT ![t] = Expand(prog[t][1])] /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<mem, cnt, hist>>
\* starting an operation commutes with everything; it is done at once
Idle == {t \in T : todo[t] = << >> /\ prog[t] # << >>}
Next == IF Idle # {} THEN Start(CHOOSE t \in Idle : TRUE)
        ELSE \E t \in T : todo[t] # << >> /\ Run(t) /\ UNCHANGED prog
Spec == Init /\ [][Next /\ UNCHANGED whole]_vars
Done == \A t \in T : todo[t] = << >> /\ prog[t] = << >>
NoBad == mem.bad = {}
AllFreed == Done => Live(mem) = {}
Emit == (Emitting /\ Done) => PrintT("HIST|" \o ToJson([p |-> whole, s |-> hist]))
=============================================================================
