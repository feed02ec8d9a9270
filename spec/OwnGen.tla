------------------------------- MODULE OwnGen -------------------------------
(***************************************************************************)
(* The abstract machine: every history of creating, composing, cloning,    *)
(* copying, taking out members, upcasting and freeing.  TLC explores it    *)
(* exhaustively for small bounds (BFS, checking Sane), and by simulation   *)
(* for long histories; each finished history is printed and then replayed  *)
(* into the library.  flt: how many allocations into an operation one      *)
(* fails (0: none); the abstract machine takes failing operations as       *)
(* having no effect, so a history in which they fail is also a history of  *)
(* the machine (OwnTrace follows what was recorded).                       *)
(***************************************************************************)
EXTENDS Own, TLC, Json, IOUtils
CONSTANTS Slots, Depth, MaxWeight, Tpls, Compose, MaxArgs, Faults, Ops, Emitting
VARIABLES obj, h, hist, fin
vars == <<obj, h, hist, fin>>
\* size of a tree of types: sharing can make it grow exponentially
RECURSIVE SumW(_)
SumW(ty) == LET F[i \in 0..Len(ty.c)] == IF i = 0 THEN 1 ELSE F[i-1] + SumW(ty.c[i]) IN F[Len(ty.c)]
Free == Slots \ DOMAIN h
\* slots are taken in order, which loses nothing but renamings
New == IF Free = {} THEN 0 ELSE CHOOSE s \in Free : \A x \in Free : s <= x
Id == Len(hist)+1
Log(r) == hist' = Append(hist, r)
Ev(op, d, a, x) == [op |-> op, d |-> d, a |-> a, x |-> x, i |-> 0, f |-> 0]
Hold(d, o, k) == h' = With(h, d, [o |-> o, k |-> k])

Make == /\ New # 0 /\ "new" \in Ops
        /\ \E t \in Tpls, f \in Faults :
             /\ obj' = With(obj, Id, [ty |-> Tpl[t][2], mem |-> [i \in 1..Len(Tpl[t][2].c) |-> 0]])
             /\ Hold(New, Id, Tpl[t][1]) /\ Log([Ev("new", New, << >>, t) EXCEPT !.f = f])
Put == /\ New # 0
       /\ \E op \in Compose, n \in 1..MaxArgs : \E a \in [1..n -> {s \in DOMAIN h : h[s].k \in Takes(op) /\ obj[h[s].o].ty.t # "err"}], f \in Faults :
             /\ SumW(TC("x", [i \in 1..n |-> obj[h[a[i]].o].ty])) <= MaxWeight
             /\ n = 1 \/ op \in {"poly", "ml", "zml", "mpoly", "zmpoly", "gc"}
             /\ IF Passes(op, n) THEN obj' = obj /\ Hold(New, h[a[1]].o, MadeKind(op))
                ELSE /\ obj' = With(obj, Id, [ty |-> Made(op, [i \in 1..n |-> obj[h[a[i]].o].ty]), mem |-> [i \in 1..n |-> h[a[i]].o]])
                     /\ Hold(New, Id, MadeKind(op))
             /\ Log([Ev("make", New, a, op) EXCEPT !.f = f])
Clone == /\ New # 0 /\ "clone" \in Ops
         /\ \E s \in DOMAIN h : obj' = obj /\ Hold(New, h[s].o, h[s].k) /\ Log(Ev("clone", New, <<s>>, ""))
Copy == /\ New # 0 /\ "copy" \in Ops
        /\ \E s \in DOMAIN h, f \in Faults :
             /\ obj' = With(obj, Id, [obj[h[s].o] EXCEPT !.mem = [i \in 1..Len(@) |-> 0]])
             /\ Hold(New, Id, h[s].k) /\ Log([Ev("copy", New, <<s>>, "") EXCEPT !.f = f])
Ways(k) == CASE k \in {"poly"} -> {"ext", "hole"} [] k = "geom" -> {"line", "poly", "lat", "pat", "gat"} [] OTHER -> {}
Take == /\ New # 0 /\ "member" \in Ops
        /\ \E s \in DOMAIN h : \E w \in Ways(h[s].k), i \in 0..2 :
             LET o == h[s].o  t == Target(obj[o].ty, h[s].k, w, i) IN
             /\ t # 0 /\ (w \in {"ext", "line", "poly"} => i = 0)
             /\ Log([Ev("member", New, <<s>>, w) EXCEPT !.i = i])
             /\ IF t = -1 THEN obj' = obj /\ Hold(New, o, MemberKind(w))
                ELSE IF obj[o].mem[t] # 0 THEN obj' = obj /\ Hold(New, obj[o].mem[t], MemberKind(w))
                ELSE /\ obj' = [With(obj, Id, [ty |-> obj[o].ty.c[t], mem |-> [j \in 1..Len(obj[o].ty.c[t].c) |-> 0]]) EXCEPT ![o].mem[t] = Id]
                     /\ Hold(New, Id, MemberKind(w))
Cast == /\ "cast" \in Ops
        /\ \E s \in DOMAIN h : \E k \in Casts(h[s].k) : obj' = obj /\ h' = [h EXCEPT ![s].k = k] /\ Log(Ev("cast", s, <<s>>, k))
Drop == /\ "free" \in Ops
        /\ \E s \in DOMAIN h : LET h2 == Without(h, s) IN
             /\ h' = h2 /\ obj' = Prune(obj, h2)
             /\ Log(Ev("free", s, <<s>>, ""))
Init == obj = << >> /\ h = << >> /\ hist = << >> /\ fin = FALSE
Next == \/ Len(hist) < Depth /\ UNCHANGED fin /\ (Make \/ Put \/ Clone \/ Copy \/ Take \/ Cast \/ Drop)
        \/ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<obj, h, hist>>
Spec == Init /\ [][Next]_vars
\* nothing is live that is not held, and everything that is held is live
Sane == /\ DOMAIN obj = Live(obj, h)
        /\ \A s \in DOMAIN h : h[s].o \in DOMAIN obj
        /\ \A o \in DOMAIN obj : Len(obj[o].mem) = Len(obj[o].ty.c)
Emit == (Emitting /\ fin) => PrintT("HIST|" \o ToJson(hist))
=============================================================================
