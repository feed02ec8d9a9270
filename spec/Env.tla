--------------------------------- MODULE Env ---------------------------------
(***************************************************************************)
(* The environment: the default index, the default spread and the number   *)
(* format, and what they mean for objects made, and texts written, later.  *)
(* An index option is a pair <<kind, spread>>; spread 0: the default one.  *)
(***************************************************************************)
EXTENDS Integers, Sequences
Start == [ix |-> "natural", sp |-> 16, fx |-> 0]
SetIndex(e, kind) == IF kind = "default" THEN e ELSE [e EXCEPT !.ix = kind]
SetSpread(e, n) == IF n < 2 \/ n > 4096 THEN e ELSE [e EXCEPT !.sp = n]
SetFixed(e, b) == [e EXCEPT !.fx = b]
Clamp(n) == IF n < 2 THEN 2 ELSE IF n > 4096 THEN 4096 ELSE n
\* the option that is in effect for an object made with option o in e
Eff(e, o) == <<IF o[1] = "default" THEN e.ix ELSE o[1], IF o[2] = 0 THEN e.sp ELSE Clamp(o[2])>>
\* rings and lines: segments, the reported spread, and sizes of the index levels from the top
NSegs(n, closed, ring) == IF ~ring THEN (IF n = 0 THEN 0 ELSE n-1) ELSE IF n < 3 THEN 0 ELSE IF closed THEN n-1 ELSE n
RECURSIVE Sizes(_, _)
Sizes(n, s) == LET c == (n + s - 1) \div s IN IF c <= 1 THEN << >> ELSE Sizes(c, s) \o <<c>>
Indexed(eff, n) == eff[1] # "none" /\ n >= 2*eff[2]
Spread(eff, n) == IF Indexed(eff, n) THEN eff[2] ELSE 0
Levels(eff, n, closed, ring) == IF Indexed(eff, n) THEN Sizes(NSegs(n, closed, ring), eff[2]) ELSE << >>
\* what decides the memory of a series: where the spread, or stripes, have no effect, they do not count
Build(eff, n, ring) == IF ~Indexed(eff, n) THEN <<"none", 0>> ELSE IF ring THEN eff ELSE <<"natural", eff[2]>>
=============================================================================
