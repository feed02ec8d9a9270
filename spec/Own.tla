-------------------------------- MODULE Own --------------------------------
(***************************************************************************)
(* Ownership of objects.  The user holds handles (slots); an object lives  *)
(* exactly as long as a handle leads to it, directly or through objects    *)
(* that hold it.  This module has what the abstract machine (OwnGen), the  *)
(* reference counting design (OwnRC) and the judge of recorded histories   *)
(* (OwnTrace) share.                                                       *)
(*                                                                         *)
(* obj: id -> record with mem, the ids of the members, 0 for a member that *)
(*      has not been seen by itself (it came with the object); ty, the     *)
(*      tree of types                                                      *)
(* h:   slot -> [o: id, k: kind of handle], for the slots in use           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in 1..Len(s)}
Members(obj, o) == Range(obj[o].mem) \ {0}
RECURSIVE Closure(_, _)
Closure(obj, R) == LET N == R \cup UNION {Members(obj, o) : o \in R} IN IF N = R THEN R ELSE Closure(obj, N)
Live(obj, h) == Closure(obj, {h[s].o : s \in DOMAIN h})
Restrict(f, S) == [x \in S |-> f[x]]
Without(f, x) == Restrict(f, DOMAIN f \ {x})
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* what is left of obj once h is all that is held
Prune(obj, h) == Restrict(obj, Live(obj, h))

\* trees of types; the w nodes wrap a line or polygon (extra coordinates)
T(t) == [t |-> t, c |-> << >>]
TC(t, c) == [t |-> t, c |-> c]
\* the member that an access leads to: -1 itself, 0 none, else its number
Target(ty, kind, w, i) ==
    CASE w = "ext"  -> IF ty.t = "ring" THEN -1 ELSE IF ty.t = "poly" THEN 1 ELSE 0
      [] w = "hole" -> IF ty.t = "poly" /\ i >= 0 /\ i+2 <= Len(ty.c) THEN i+2 ELSE 0
      [] w = "line" -> IF ty.t = "line" THEN -1 ELSE IF ty.t = "wline" THEN 1 ELSE 0
      [] w = "poly" -> IF ty.t \in {"ring", "poly"} THEN -1 ELSE IF ty.t = "wpoly" THEN 1 ELSE 0
      [] w = "lat"  -> IF ty.t = "ml" /\ i >= 0 /\ i < Len(ty.c) THEN i+1 ELSE 0
      [] w = "pat"  -> IF ty.t = "mpoly" /\ i >= 0 /\ i < Len(ty.c) THEN i+1 ELSE 0
      [] w = "gat"  -> IF ty.t = "gc" /\ i >= 0 /\ i < Len(ty.c) THEN i+1 ELSE 0
\* the kind of the handle that an access gives
MemberKind(w) == CASE w \in {"ext", "hole"} -> "ring" [] w \in {"line", "lat"} -> "line" [] w \in {"poly", "pat"} -> "poly" [] OTHER -> "geom"
\* upcasts
Casts(k) == CASE k = "ring" -> {"poly", "geom"} [] k = "poly" -> {"geom"} [] k = "line" -> {"geom"} [] OTHER -> {}

\* what can be made from nothing: templates, their kinds and trees
Ring == T("ring")  Line == T("line")  Pt == T("pt")
Hole2 == TC("poly", <<Ring, Ring>>)
Tpl == [r1 |-> <<"ring", Ring>>, r2 |-> <<"ring", Ring>>, r3 |-> <<"ring", Ring>>,
        l1 |-> <<"line", Line>>, l2 |-> <<"line", Line>>,
        pt |-> <<"geom", Pt>>, ptz |-> <<"geom", Pt>>, mp |-> <<"geom", T("mp")>>, mpz |-> <<"geom", T("mp")>>, em |-> <<"geom", T("pt")>>,
        t1 |-> <<"geom", TC("gc", <<Pt, Line, Hole2>>)>>,
        t2 |-> <<"geom", TC("mpoly", <<Hole2, Ring>>)>>,
        t3 |-> <<"geom", TC("ml", <<Line, Line>>)>>,
        t4 |-> <<"geom", TC("wline", <<Line>>)>>,
        t5 |-> <<"geom", TC("wpoly", <<Hole2>>)>>,
        t6 |-> <<"geom", TC("gc", <<TC("wline", <<Line>>), Pt, TC("gc", <<Pt, Ring>>)>>)>>,
        t7 |-> <<"geom", TC("gc", <<TC("wpoly", <<Ring>>), TC("wline", <<Line>>)>>)>>,
        t9 |-> <<"geom", TC("gc", <<Pt, TC("gc", <<TC("wpoly", <<Ring>>), Pt>>)>>)>>,
        t8 |-> <<"geom", T("mp")>>,
        bad |-> <<"geom", T("err")>>]
\* the tree of what a constructor makes of the trees of its arguments
Made(op, c) == CASE op = "poly"  -> IF Len(c) = 1 THEN c[1] ELSE TC("poly", c)
                 [] op \in {"gline", "gpoly"} -> c[1]
                 [] op = "zline" -> TC("wline", c)
                 [] op = "zpoly" -> TC("wpoly", c)
                 [] op \in {"ml", "zml"} -> TC("ml", c)
                 [] op \in {"mpoly", "zmpoly"} -> TC("mpoly", c)
                 [] op = "gc" -> TC("gc", c)
MadeKind(op) == IF op = "poly" THEN "poly" ELSE "geom"
\* kinds of handles that a constructor takes
Takes(op) == CASE op = "poly" -> {"ring"} [] op \in {"gline", "zline", "ml", "zml"} -> {"line"}
               [] op \in {"gpoly", "zpoly", "mpoly", "zmpoly"} -> {"poly", "ring"} [] op = "gc" -> {"geom", "ring", "line", "poly"}
\* a constructor that gives back its argument instead of something new
Passes(op, n) == op \in {"gline", "gpoly"} \/ (op = "poly" /\ n = 1)
=============================================================================
