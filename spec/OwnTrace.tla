------------------------------ MODULE OwnTrace ------------------------------
(***************************************************************************)
(* Judges recorded histories.  After every operation the record has, for   *)
(* each slot in use, <<slot, address, fingerprint, reported size>>, and    *)
(* how many bytes and blocks are allocated.                                *)
(*                                                                         *)
(* pool: what came from one operation was taken from the allocator         *)
(* together; the bytes of a pool are learned when it is made, and again    *)
(* when only a part of it is left (it must have shrunk).  All of a pool is *)
(* gone when nothing of it is live.  spare: bytes of a pool that may be     *)
(* unused at the end of JSON texts which the parser kept.                  *)
(***************************************************************************)
EXTENDS Own, TraceBase
VARIABLES l, obj, h, pool, ref, off, spare
vars == <<l, obj, h, pool, ref, off, spare>>
Focus == IOEnv.FOCUS
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
Slot(e, s) == LET I == {i \in 1..Len(e.hd) : e.hd[i][1] = s} IN IF I = {} THEN <<s, 0, 0, 0>> ELSE e.hd[CHOOSE i \in I : TRUE]
IdAt(ob, a) == LET I == {o \in DOMAIN ob : ob[o].addr = a} IN IF I = {} THEN 0 ELSE CHOOSE o \in I : TRUE
MemberPool(ob, p) == {o \in DOMAIN ob : ob[o].pool = p}

(***************************************************************************)
(* The objects and handles after the operation that e records: [obj, h,    *)
(* bad: complaints, new: the pool that it starts or 0]                     *)
(***************************************************************************)
Fresh(e, ty, mem, p) == [ty |-> ty, mem |-> mem, fp |-> Slot(e, e.d)[3], addr |-> e.addr, pool |-> p]
Res(ob, hh, b, n) == [obj |-> ob, h |-> hh, bad |-> b, new |-> n]
Same(b) == Res(obj, h, b, 0)
Arg(e, i) == h[e.a[i]].o
AllThere(e) == \A i \in 1..Len(e.a) : e.a[i] \in DOMAIN h
Hold(e, o, k) == With(h, e.d, [o |-> o, k |-> k])
Clean(n) == [i \in 1..n |-> 0]
\* something new is not at the place of something that is still there
NewBad(e) == IF IdAt(obj, e.addr) = 0 THEN {} ELSE {<<"life", "new object at the address of a live one">>}
\* the same call on the same content makes the same content
Key(e) == <<e.op, e.x, [i \in 1..Len(e.a) |-> obj[Arg(e, i)].fp]>>
RefBad(e) == IF Key(e) \in DOMAIN ref /\ Slot(e, e.d)[3] # ref[Key(e)] THEN {<<"result", "differs from the same call before">>} ELSE {}
Failed(e) == IF e.nf > 0 THEN Same({}) ELSE Same({<<"result", "no object">>})
Step(e) ==
    CASE e.op = "free" -> LET hh == Without(h, e.d) IN Res(obj, hh, {}, 0)
      [] e.op = "cast" -> Res(obj, [h EXCEPT ![e.d].k = e.x], {}, 0)
      [] e.op = "query" -> Same(IF e.ok = 1 \/ e.nf > 0 THEN {} ELSE {<<"result", "a query gives another answer">>})
      [] e.op # "member" /\ e.ok = 0 -> Failed(e)
      [] e.op # "new" /\ e.er = 1 /\ (e.op \notin {"clone", "copy"} \/ obj[Arg(e, 1)].ty.t # "err") -> Same({<<"result", "an error">>})
      [] e.op = "new" ->
           LET ty == IF e.er = 1 THEN T("err") ELSE Tpl[e.x][2] IN
           Res(With(obj, l, Fresh(e, ty, Clean(Len(ty.c)), l)), Hold(e, l, Tpl[e.x][1]),
               NewBad(e) \cup (IF e.er = 1 /\ Tpl[e.x][2].t # "err" THEN (IF e.nf > 0 THEN {} ELSE {<<"result", "an error">>})
                               ELSE IF e.er = 0 /\ Tpl[e.x][2].t = "err" THEN {<<"result", "no error">>} ELSE RefBad(e)), l)
      [] e.op = "make" ->
           LET n == Len(e.a)  c == [i \in 1..n |-> obj[Arg(e, i)].ty] IN
           IF Passes(e.x, n) /\ e.addr = obj[Arg(e, 1)].addr THEN Res(obj, Hold(e, Arg(e, 1), MadeKind(e.x)), {}, 0)
           ELSE Res(With(obj, l, Fresh(e, Made(e.x, c), [i \in 1..Len(Made(e.x, c).c) |-> IF Len(Made(e.x, c).c) = n THEN Arg(e, i) ELSE 0], l)),
                    Hold(e, l, MadeKind(e.x)), NewBad(e) \cup RefBad(e), l)
      [] e.op = "clone" -> Res(obj, Hold(e, Arg(e, 1), h[e.a[1]].k), IF e.addr = obj[Arg(e, 1)].addr THEN {} ELSE {<<"clone", "a clone is another object">>}, 0)
      [] e.op = "copy" ->
           LET o == obj[Arg(e, 1)] IN
           Res(With(obj, l, Fresh(e, o.ty, Clean(Len(o.mem)), l)), Hold(e, l, h[e.a[1]].k),
               (IF NewBad(e) = {} THEN {} ELSE {<<"copy", "a copy is a live object">>})
               \cup (IF Slot(e, e.d)[3] = o.fp THEN {} ELSE {<<"copy", "a copy differs from its original">>}), l)
      [] e.op = "member" ->
           LET o == Arg(e, 1)  t == Target(obj[o].ty, h[e.a[1]].k, e.x, e.i)  k == MemberKind(e.x) IN
           IF t = 0 THEN Same(IF e.ok = 0 THEN {} ELSE {<<"result", "a member that is not there">>})
           ELSE IF e.ok = 0 THEN Same({<<"result", "no member">>})
           ELSE IF t = -1 THEN Res(obj, Hold(e, o, k), IF e.addr = obj[o].addr THEN {} ELSE {<<"life", "not the object itself">>}, 0)
           ELSE IF obj[o].mem[t] # 0 THEN Res(obj, Hold(e, obj[o].mem[t], k), IF e.addr = obj[obj[o].mem[t]].addr THEN {} ELSE {<<"life", "not the member that was put in">>}, 0)
           ELSE LET ty == obj[o].ty.c[t] IN
                Res([With(obj, l, Fresh(e, ty, Clean(Len(ty.c)), obj[o].pool)) EXCEPT ![o].mem[t] = l], Hold(e, l, k), NewBad(e), 0)
\* ------------------------------------------------------------- accounting
(***************************************************************************)
(* With r, the result of Step: bytes of the pools afterwards.  lost: pools *)
(* of which something, but not all, went.                                  *)
(***************************************************************************)
Account(e, r) ==
    LET live == Live(r.obj, r.h)
        ob == Restrict(r.obj, live)
        P == {ob[o].pool : o \in live}
        old == {p \in P : p # r.new}
        lost == {p \in old : MemberPool(ob, p) # MemberPool(obj, p) /\ MemberPool(obj, p) \ MemberPool(ob, p) # {}}
        kept == old \ lost
        known == SumF(pool, kept)
        learn == lost \cup (IF r.new = 0 THEN {} ELSE {r.new})
        rest == e.bytes - known
        p == CHOOSE p \in learn : TRUE
    IN IF learn = {} THEN [obj |-> ob, pool |-> Restrict(pool, old), off |-> FALSE,
                           bad |-> (IF rest = 0 THEN {} ELSE {<<"memory", ToString(rest) \o " bytes too many">>})]
       ELSE IF Cardinality(learn) > 1 THEN [obj |-> ob, pool |-> pool, off |-> TRUE, bad |-> {}]
       ELSE [obj |-> ob, pool |-> With(Restrict(pool, kept), p, rest), off |-> FALSE,
             bad |-> IF p = r.new THEN (IF rest >= 0 THEN {} ELSE {<<"memory", "a new object gives memory back">>})
                     ELSE IF 0 < rest /\ rest < pool[p] THEN {} ELSE {<<"memory", ToString(<<"left of", pool[p], rest>>)>>}]
\* members of c counted as often as they are held
RECURSIVE Twice(_, _, _)
Tree(ob, o) == LET m == ob[o].mem IN [i \in {i \in 1..Len(m) : m[i] # 0} |-> m[i]]
Twice(ob, todo, seen) ==
    IF todo = << >> THEN FALSE
    ELSE LET o == todo[1] IN o \in seen \/ Twice(ob, SelectSeq(ob[o].mem, LAMBDA x : x # 0) \o Tail(todo), seen \cup {o})
SizeBad(ob, hh, pl, e) ==
    {<<"size", ToString(<<"slot", x[1], "reports", x[4]>>)>> : x \in {x \in Range(e.hd) : x[1] \in DOMAIN hh /\
        LET C == Closure(ob, {hh[x[1]].o})  P == {ob[o].pool : o \in C}
        IN ~Twice(ob, <<hh[x[1]].o>>, {}) /\ (\A p \in P : MemberPool(ob, p) \subseteq C) /\ ~(SumF(pl, P) - SumF([p \in P |-> IF p \in DOMAIN spare THEN spare[p] ELSE e.sl], P) <= x[4] /\ x[4] <= SumF(pl, P))}}
View(ob, hh, e) ==
    (IF {e.hd[i][1] : i \in 1..Len(e.hd)} = DOMAIN hh THEN {} ELSE {<<"life", "slots in use should be " \o ToString(DOMAIN hh)>>})
    \cup {<<"life", "content or place of slot " \o ToString(s)>> : s \in {s \in DOMAIN hh : LET x == Slot(e, s) IN x[2] # ob[hh[s].o].addr \/ x[3] # ob[hh[s].o].fp}}
Tags == CASE Focus = "L01" -> {"life", "memory", "free", "clone"}
          [] Focus = "L03" -> {"life", "memory", "free", "result", "clone", "copy"}
          [] Focus = "L04" -> {"copy", "clone", "life", "memory", "free"}
          [] Focus = "A02" -> {"size"}
Bad(e, r, a) ==
    {x \in r.bad \cup View(r.obj, r.h, e) \cup a.bad
           \cup (IF a.off THEN {} ELSE SizeBad(a.obj, r.h, a.pool, e))
           \cup (IF e.bf = 0 THEN {} ELSE {<<"free", "of something that is not allocated">>})
           \cup (IF (e.blocks = 0) = (a.obj = << >> \/ DOMAIN a.obj = {}) THEN {} ELSE {<<"memory", ToString(e.blocks) \o " blocks">>}) : x[1] \in Tags}
Judged(e) ==
    IF e.op = "start" THEN
        /\ Judge(l, {}) /\ obj' = << >> /\ h' = << >> /\ pool' = << >> /\ ref' = << >> /\ off' = FALSE /\ spare' = << >>
    ELSE IF off \/ ~AllThere(e) THEN Judge(l, {}) /\ UNCHANGED <<obj, h, pool, ref, off, spare>>
    ELSE LET r == Step(e)  a == Account(e, r)  b == Bad(e, r, a) IN
        /\ Judge(l, b)
        /\ spare' = IF r.new = 0 THEN spare ELSE With(spare, r.new, e.sl)
        /\ obj' = a.obj /\ h' = r.h /\ pool' = a.pool /\ off' = (a.off \/ b # {})
        /\ ref' = IF e.op \in {"new", "make"} /\ e.ok = 1 /\ e.er = 0 /\ Key(e) \notin DOMAIN ref THEN With(ref, Key(e), Slot(e, e.d)[3]) ELSE ref
Init == l = 1 /\ obj = << >> /\ h = << >> /\ pool = << >> /\ ref = << >> /\ off = FALSE /\ spare = << >>
Next == l <= Len(Trace) /\ Judged(Trace[l]) /\ l' = l+1
Spec == Init /\ [][Next]_vars
=============================================================================
