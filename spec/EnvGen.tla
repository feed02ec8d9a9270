-------------------------------- MODULE EnvGen --------------------------------
(***************************************************************************)
(* Histories of settings and of making objects, all of them (BFS) or at    *)
(* random (simulation); each is printed and replayed into the library.     *)
(* Sane: what was made is never affected by a later setting.               *)
(***************************************************************************)
EXTENDS Env, FiniteSets, TLC, Json
CONSTANTS Depth, Slots, Shapes, Sizes2, Opts, Spreads, Emitting
VARIABLES env, made, hist, fin
vars == <<env, made, hist, fin>>
Kinds == {"none", "natural", "ystripes", "default"}
OptOf(x) == [kind |-> x[1], sp |-> x[2]]
OptSet == {<<"default", 0>>, <<"default", 3>>, <<"natural", 0>>, <<"ystripes", 0>>, <<"none", 0>>, <<"ystripes", 5000>>, <<"natural", 1>>}
Chosen == IF Opts = 0 THEN OptSet ELSE {<<"default", 0>>, <<"default", 3>>, <<"ystripes", 0>>}
Ev(op, kind, n, shape, s, d) == [op |-> op, kind |-> kind, n |-> n, shape |-> shape, s |-> s, d |-> d]
Log(r) == hist' = Append(hist, r)
Ix == \E k \in Kinds : env' = SetIndex(env, k) /\ Log(Ev("ix", k, 0, "", 0, 0)) /\ UNCHANGED made
Sp == \E n \in Spreads \cup {-5} : env' = SetSpread(env, n) /\ Log(Ev("spread", "", n, "", 0, 0)) /\ UNCHANGED made
Fx == \E b \in {0, 1} : env' = SetFixed(env, b) /\ Log(Ev("fixed", "", b, "", 0, 0)) /\ UNCHANGED made
Mk == \E s \in Slots \ DOMAIN made, sh \in Shapes, n \in Sizes2, o \in Chosen :
         /\ made' = [x \in DOMAIN made \cup {s} |-> IF x = s THEN Eff(env, o) ELSE made[x]]
         /\ Log(Ev("make", o[1], n, sh, s, o[2])) /\ UNCHANGED env
Cp == \E s \in Slots \ DOMAIN made, t \in DOMAIN made, k \in {"clone", "copy"} :
         /\ made' = [x \in DOMAIN made \cup {s} |-> IF x = s THEN made[t] ELSE made[x]]
         /\ Log(Ev(k, "", 0, "", s, t)) /\ UNCHANGED env
Fr == \E s \in DOMAIN made : made' = [x \in DOMAIN made \ {s} |-> made[x]] /\ Log(Ev("free", "", 0, "", s, 0)) /\ UNCHANGED env
Init == env = Start /\ made = << >> /\ hist = << >> /\ fin = FALSE
Next == \/ Len(hist) < Depth /\ UNCHANGED fin /\ (Ix \/ Sp \/ Fx \/ Mk \/ Cp \/ Fr)
        \/ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<env, made, hist>>
Spec == Init /\ [][Next]_vars
Sane == /\ env.ix \in Kinds \ {"default"} /\ env.sp \in 2..4096 /\ env.fx \in {0, 1}
        /\ \A s \in DOMAIN made : made[s][1] # "default" /\ made[s][2] \in 2..4096
Keeps == [][\A s \in DOMAIN made \cap DOMAIN made' : made'[s] = made[s]]_vars
Emit == (Emitting /\ fin) => PrintT("HIST|" \o ToJson(hist))
=============================================================================
