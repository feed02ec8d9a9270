----------------------------- MODULE SeriesTrace -----------------------------
(***************************************************************************)
(* Measures, rectangles and index levels of rings and lines, and bounding  *)
(* rectangles of geometries.                                               *)
(*  k = "meas":  p positions of a ring or line; a2 twice the area, cw, cvx,*)
(*     per: length * 2^10 rounded down or -1; simple: is it a simple ring        *)
(*  k = "level": p, ring, none: built without an index, req: spread in     *)
(*     effect, spread and lv: what was reported, in 1/65536 rounded        *)
(*     outward; wide: exact rectangles; far: the coordinates are scaled to *)
(*     where single precision has no normal numbers                        *)
(*  k = "rect":  g, a tree of positions of 2 to 4 coordinates; rect, d, fr *)
(*  k = "rops":  rectangle operations on a and b                           *)
(***************************************************************************)
EXTENDS Planar, TraceBase
VARIABLE l

Closed(p) == p[1] = p[Len(p)]
NSegs(p, ring) == LET n == Len(p) IN IF ~ring THEN n-1 ELSE IF n < 3 THEN 0 ELSE IF Closed(p) THEN n-1 ELSE n
Seg(p, i) == LET n == Len(p) IN <<p[i][1], p[i][2], p[(i%n)+1][1], p[(i%n)+1][2]>>
SeriesSegs(p, ring) == TLCEval([i \in 1..NSegs(p, ring) |-> Seg(p, i)])
RangeMin(f, I) == CHOOSE x \in {f[i] : i \in I} : \A i \in I : x <= f[i]
RangeMax(f, I) == CHOOSE x \in {f[i] : i \in I} : \A i \in I : x >= f[i]

\* --------------------------------------------------------------- measures
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) ==   \* greatest x in lo..hi with x*x <= n
    IF lo = hi THEN lo
    ELSE LET mid == (lo+hi+1) \div 2 IN IF mid * mid <= n THEN Isqrt(n, mid, hi) ELSE Isqrt(n, lo, mid-1)
\* 2^10 * length, rounded down, for squared lengths below 2^11
Len10(s) == LET d == (s[3]-s[1])*(s[3]-s[1]) + (s[4]-s[2])*(s[4]-s[2]) IN Isqrt(d * 1048576, 0, 46340)
\* the same ring without repeated positions, not explicitly closed
RECURSIVE Dedup(_, _, _)
Dedup(p, i, r) == IF i > Len(p) THEN (IF Len(r) > 1 /\ r[1] = r[Len(r)] THEN SubSeq(r, 1, Len(r)-1) ELSE r)
                  ELSE Dedup(p, i+1, IF r # << >> /\ r[Len(r)] = p[i] THEN r ELSE Append(r, p[i]))
Turn(a, b, c) == (b[1]-a[1])*(c[2]-b[2]) - (b[2]-a[2])*(c[1]-b[1])
Convex(p) == LET r == Dedup(p, 1, << >>)  n == Len(r)
                 T == {Turn(r[i], r[(i%n)+1], r[((i+1)%n)+1]) : i \in 1..n}
             IN ~((\E t \in T : t < 0) /\ (\E t \in T : t > 0))
BadMeas(e) ==
    LET S == SeriesSegs(e.p, e.ring)
        n == Len(S)
        q == IF Closed(e.p) THEN e.p ELSE Append(e.p, e.p[1])
        a == Area2(q)
        T == TLCEval([i \in 1..n |-> Len10(S[i])])
        lo == SumSeq(T, 1)
    IN (IF e.ring /\ e.a2 # (IF n = 0 THEN 0 ELSE Abs(a)) THEN {<<"area", e.a2, a>>} ELSE {})
       \cup (IF n > 0 /\ a # 0 /\ (e.cw = 1) # (a < 0) THEN {<<"winding", e.cw, a>>} ELSE {})
       \cup (IF e.simple /\ (e.cvx = 1) # Convex(e.p) THEN {<<"convex", e.cvx>>} ELSE {})
       \cup (IF e.per = -1 \/ (lo-1 <= e.per /\ e.per <= lo + n) THEN {} ELSE {<<"length", e.per, lo>>})

\* ----------------------------------------------------------------- levels
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k-1)
\* the levels that a spread s and n segments call for, bottom first: sizes
RECURSIVE Sizes(_, _)
Sizes(n, s) == LET c == (n + s - 1) \div s IN IF c <= 1 THEN << >> ELSE <<c>> \o Sizes(c, s)
U == 65536
Close(got, want, dir, e) ==  \* got is want, or beyond it by single precision at most (any, where that has no normal numbers)
    IF e.wide THEN got = want
    ELSE IF e.far THEN dir*got >= dir*want
    ELSE Abs(got) <= 1100000000 /\ LET d == dir * (got - want) IN 0 <= d /\ d <= (Abs(want) \div 64) + 2
BadLevel(e) ==
    LET S == SeriesSegs(e.p, e.ring)  n == Len(S)
        indexed == ~e.none /\ Len(e.p) >= 2*e.req
        sz == IF indexed THEN Sizes(n, e.req) ELSE << >>
        nl == Len(sz)
        x1 == TLCEval([i \in 1..n |-> Min2(S[i][1], S[i][3])])
        y1 == TLCEval([i \in 1..n |-> Min2(S[i][2], S[i][4])])
        x2 == TLCEval([i \in 1..n |-> Max2(S[i][1], S[i][3])])
        y2 == TLCEval([i \in 1..n |-> Max2(S[i][2], S[i][4])])
        \* segments below rectangle j (from 1) of the level k from the bottom
        Below(k, j) == LET g == Pow(e.req, k) IN ((j-1)*g+1)..Min2(j*g, n)
        BadRect(k, j) ==
            LET r == e.lv[nl-k+1][j]  B == Below(k, j)
            IN ~(/\ Close(r[1], U*RangeMin(x1, B), -1, e) /\ Close(r[2], U*RangeMin(y1, B), -1, e)
                 /\ Close(r[3], U*RangeMax(x2, B), 1, e) /\ Close(r[4], U*RangeMax(y2, B), 1, e))
    IN IF e.spread # (IF indexed THEN e.req ELSE 0) THEN {<<"spread", e.spread>>}
       ELSE IF [i \in 1..Len(e.lv) |-> Len(e.lv[i])] # [i \in 1..nl |-> sz[nl-i+1]] THEN {<<"shape", [i \in 1..Len(e.lv) |-> Len(e.lv[i])], sz>>}
       ELSE {<<"rectangle", kj>> : kj \in {kj \in UNION {{k} \X (1..sz[k]) : k \in 1..nl} : BadRect(kj[1], kj[2])}}

\* ------------------------------------------------------------- rectangles
RECURSIVE Positions(_)
Positions(g) == IF g.t = 4 THEN LET F[i \in 0..Len(g.c)] == IF i = 0 THEN << >> ELSE F[i-1] \o Positions(g.c[i]) IN F[Len(g.c)]
                ELSE g.p
BadRectG(e) ==
    LET P == Positions(e.g)
        dims == IF P = << >> THEN 2 ELSE RangeMax([i \in 1..Len(P) |-> Len(P[i])], 1..Len(P))
        Co(k) == {P[i][k] : i \in {i \in 1..Len(P) : Len(P[i]) >= k}}
        want == [k \in 1..dims |-> LET C == Co(k) IN <<CHOOSE x \in C : \A y \in C : x <= y, CHOOSE x \in C : \A y \in C : x >= y>>]
        r == <<want[1][1], want[2][1], want[1][2], want[2][2]>>
    IN IF P = << >> THEN IF e.rect = <<0, 0, 0, 0>> THEN {} ELSE {<<"rect of empty", e.rect>>}
       ELSE (IF e.rect = r THEN {} ELSE {<<"rect", e.rect, r>>})
            \cup (IF e.d = dims /\ e.fr = want THEN {} ELSE {<<"fullrect", e.d, e.fr, want>>})
            \cup (IF e.c2 = <<r[1]+r[3], r[2]+r[4]>> \/ e.g.t # 4 THEN {} ELSE {<<"center", e.c2>>})
BadRops(e) ==
    LET a == e.a  b == e.b  o == e.o
        In(p, r) == r[1] <= p[1] /\ p[1] <= r[3] /\ r[2] <= p[2] /\ p[2] <= r[4]
        Join(r, s) == <<Min2(r[1], s[1]), Min2(r[2], s[2]), Max2(r[3], s[3]), Max2(r[4], s[4])>>
        p == <<b[1], b[2]>>
        inter == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]
    IN {x \in {<<"ii", o.ii = 1, inter>>, <<"pi", o.pi = 1, In(p, a)>>, <<"ipr", o.ipr = 1, In(p, a)>>, <<"ex", o.ex, Join(a, b)>>,
               <<"ep", o.ep, Join(a, p \o p)>>, <<"pr", o.pr, p \o p>>, <<"sr", o.sr, b>>, <<"c2", o.c2, <<a[1]+a[3], a[2]+a[4]>>>>} : x[2] # x[3]}

Bad(e) == CASE e.k = "meas" -> BadMeas(e) [] e.k = "level" -> BadLevel(e) [] e.k = "rect" -> BadRectG(e) [] e.k = "rops" -> BadRops(e)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l+1
Spec == Init /\ [][Next]_l
=============================================================================
