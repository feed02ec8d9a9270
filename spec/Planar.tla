------------------------------- MODULE Planar -------------------------------
(***************************************************************************)
(* Exact planar geometry over the integers: what it means, point by point, *)
(* for two geometries to meet, to cover each other and to touch.           *)
(*                                                                         *)
(* Points of interest that are not integral are rationals <<X, Y, D>>,     *)
(* D > 0, for X/D, Y/D.  With coordinates within -100..100 every product   *)
(* stays below 2^31.                                                       *)
(*                                                                         *)
(* A geometry is a record (as read from a trace):                          *)
(*   [t |-> 0]               an empty geometry                             *)
(*   [t |-> 1, p |-> pt]     a point          pt   = <<x, y>>              *)
(*   [t |-> 2, l |-> pts]    a line string    pts  = Seq(pt)               *)
(*   [t |-> 3, r |-> rings]  a polygon        rings = Seq(pts), first one  *)
(*                           the exterior; each ring ends where it starts  *)
(*   [t |-> 4, c |-> geoms]  a multi geometry or collection                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i+1)

\* ------------------------------------------------------------------ segments
\* A segment is <<ax, ay, bx, by>>, never of zero length.
Segs(pts) ==   \* segments of a point sequence, zero-length ones left out
    LET F[i \in 0..Len(pts)-1] ==
          IF i = 0 THEN << >>
          ELSE IF pts[i] = pts[i+1] THEN F[i-1]
          ELSE Append(F[i-1], <<pts[i][1], pts[i][2], pts[i+1][1], pts[i+1][2]>>)
    IN IF Len(pts) = 0 THEN << >> ELSE F[Len(pts)-1]

Area2(pts) ==  \* twice the signed area of a closed ring (> 0: counterclockwise)
    LET F[i \in 0..Len(pts)-1] ==
          IF i = 0 THEN 0
          ELSE F[i-1] + pts[i][1]*pts[i+1][2] - pts[i+1][1]*pts[i][2]
    IN IF Len(pts) = 0 THEN 0 ELSE F[Len(pts)-1]

Reverse4(s) == <<s[3], s[4], s[1], s[2]>>

\* The edges of a polygon, oriented so that its interior is on their left.
RingEdges(pts, hole) ==
    LET s == Segs(pts)
        flip == (Area2(pts) < 0) # hole
    IN IF flip THEN TLCEval([i \in 1..Len(s) |-> Reverse4(s[i])]) ELSE s
RECURSIVE PolyEdgesFrom(_, _)
PolyEdgesFrom(rings, i) ==
    IF i > Len(rings) THEN << >>
    ELSE RingEdges(rings[i], i > 1) \o PolyEdgesFrom(rings, i+1)
PolyEdges(rings) == PolyEdgesFrom(rings, 1)

\* Is the rational point p on the segment s?
OnSeg(p, s) ==
    LET D == p[3]
        x == p[1] - s[1]*D   y == p[2] - s[2]*D
    IN /\ (s[3]-s[1])*y = (s[4]-s[2])*x
       /\ Min2(s[1], s[3])*D <= p[1]  /\ p[1] <= Max2(s[1], s[3])*D
       /\ Min2(s[2], s[4])*D <= p[2]  /\ p[2] <= Max2(s[2], s[4])*D
OnAny(p, E) == \E i \in 1..Len(E) : OnSeg(p, E[i])

\* Even-odd rule over all edges of a polygon.  0: outside, 1: boundary, 2: inside
RayHits(p, s) ==
    LET D == p[3]
        up == s[4]*D > p[2]
    IN /\ (s[2]*D > p[2]) # up
       /\ ((s[3]-s[1])*(p[2]-s[2]*D) - (s[4]-s[2])*(p[1]-s[1]*D) > 0) = up
LocIn(p, E) ==
    IF OnAny(p, E) THEN 1
    ELSE IF Cardinality({i \in 1..Len(E) : RayHits(p, E[i])}) % 2 = 1 THEN 2 ELSE 0

\* Parameters <<n, d>> along segment s (0 at its start, 1 at its end) at which
\* it meets segment t.  For an overlap, its two ends.
Meets(s, t) ==
    LET dx1 == s[3]-s[1]  dy1 == s[4]-s[2]
        dx2 == t[3]-t[1]  dy2 == t[4]-t[2]
        ex == t[1]-s[1]   ey == t[2]-s[2]
        den == dx1*dy2 - dy1*dx2
    IN IF den # 0
       THEN LET sg == IF den < 0 THEN -1 ELSE 1
                u == sg*(ex*dy2 - ey*dx2)
                v == sg*(ex*dy1 - ey*dx1)
                d == sg*den
            IN IF 0 <= u /\ u <= d /\ 0 <= v /\ v <= d THEN {<<u, d>>} ELSE {}
       ELSE IF dx1*ey # dy1*ex THEN {}
       ELSE LET L == dx1*dx1 + dy1*dy1
                u1 == ex*dx1 + ey*dy1
                u2 == (t[3]-s[1])*dx1 + (t[4]-s[2])*dy1
                lo == Max2(0, Min2(u1, u2))
                hi == Min2(L, Max2(u1, u2))
            IN IF lo > hi THEN {} ELSE {<<lo, L>>, <<hi, L>>}
Hits(s, E) == UNION {Meets(s, E[i]) : i \in 1..Len(E)}
Lt(u, v) == u[1]*v[2] < v[1]*u[2]
At(s, u) == <<s[1]*u[2] + u[1]*(s[3]-s[1]), s[2]*u[2] + u[1]*(s[4]-s[2]), u[2]>>

\* One inner point of each piece that the contacts H cut segment s into.  The
\* mediant of two neighbouring parameters lies strictly between them.
Pieces(s, H) ==
    LET U == H \cup {<<0, 1>>, <<1, 1>>}
        N == {uv \in U \X U : /\ Lt(uv[1], uv[2])
                              /\ \A w \in U : ~(Lt(uv[1], w) /\ Lt(w, uv[2]))}
    IN {At(s, <<uv[1][1]+uv[2][1], uv[1][2]+uv[2][2]>>) : uv \in N}

\* Where a piece (through p, along s) of a polygon boundary is relative to the
\* polygon with edges E: 0 outside, 2 inside, 3 on its boundary with both
\* interiors on the same side, 4 on its boundary with the interiors apart.
Side(p, s, E) ==
    LET on == {i \in 1..Len(E) : OnSeg(p, E[i])}
    IN IF on = {} THEN LocIn(p, E)
       ELSE IF \E i \in on : (s[3]-s[1])*(E[i][3]-E[i][1]) + (s[4]-s[2])*(E[i][4]-E[i][2]) > 0
       THEN 3 ELSE 4

\* ---------------------------------------------------- relations of two leaves
\* i: a common point;  ii: common interior point;  ab: a covers b;  ba: b covers a
\* fb: b fills a hole of a exactly;  fa: a fills a hole of b exactly
R(i, ii, ab, ba) == [i |-> i, ii |-> ii, ab |-> ab, ba |-> ba, fb |-> FALSE, fa |-> FALSE]
Flip(r) == [i |-> r.i, ii |-> r.ii, ab |-> r.ba, ba |-> r.ab, fb |-> r.fa, fa |-> r.fb]
Pt(p) == <<p[1], p[2], 1>>

PP(a, b) == LET e == a = b IN R(e, e, e, e)
\* the boundary of a line string: its two ends unless it is closed
LineBoundary(l) == IF l[1] = l[Len(l)] THEN {} ELSE {l[1], l[Len(l)]}
PL(p, l) ==
    LET on == OnAny(Pt(p), Segs(l))
    IN R(on, on /\ p \notin LineBoundary(l), FALSE, on)
PG(p, rings) ==
    LET k == LocIn(Pt(p), PolyEdges(rings))
    IN R(k > 0, k = 2, FALSE, k > 0)

IsPt(q, p) == q[1] = p[1]*q[3] /\ q[2] = p[2]*q[3]
LL(a, b) ==
    LET EA == Segs(a)  EB == Segs(b)
        HB == TLCEval([k \in 1..Len(EB) |-> Hits(EB[k], EA)])
        HA == TLCEval([k \in 1..Len(EA) |-> Hits(EA[k], EB)])
        onB == {OnAny(p, EA) : p \in UNION {Pieces(EB[k], HB[k]) : k \in 1..Len(EB)}}
        onA == {OnAny(p, EB) : p \in UNION {Pieces(EA[k], HA[k]) : k \in 1..Len(EA)}}
        ends == LineBoundary(a) \cup LineBoundary(b)
        common == UNION {{At(EB[k], u) : u \in HB[k]} : k \in 1..Len(EB)}
        i == common # {}
        ii == TRUE \in onB \/ \E q \in common : \A e \in ends : ~IsPt(q, e)
    IN R(i, ii, FALSE \notin onB, FALSE \notin onA)

LG(l, rings) ==
    LET EA == Segs(l)  EB == PolyEdges(rings)
        H == TLCEval([k \in 1..Len(EA) |-> Hits(EA[k], EB)])
        pa == UNION {{LocIn(p, EB) : p \in Pieces(EA[k], H[k])} : k \in 1..Len(EA)}
        hit == \E k \in 1..Len(EA) : H[k] # {}
    IN R(hit \/ 2 \in pa, 2 \in pa, FALSE, 0 \notin pa)

GG(ra, rb) ==
    LET EA == PolyEdges(ra)  EB == PolyEdges(rb)
        nxa == Len(Segs(ra[1]))  nxb == Len(Segs(rb[1]))
        HA == TLCEval([k \in 1..Len(EA) |-> Hits(EA[k], EB)])
        HB == TLCEval([k \in 1..Len(EB) |-> Hits(EB[k], EA)])
        SA == TLCEval([k \in 1..Len(EA) |-> {Side(p, EA[k], EB) : p \in Pieces(EA[k], HA[k])}])
        SB == TLCEval([k \in 1..Len(EB) |-> {Side(p, EB[k], EA) : p \in Pieces(EB[k], HB[k])}])
        pa == UNION {SA[k] : k \in 1..Len(EA)}
        pb == UNION {SB[k] : k \in 1..Len(EB)}
        hit == \E k \in 1..Len(EA) : HA[k] # {}
        ii == 2 \in pa \/ 2 \in pb \/ 3 \in pb
    IN [i  |-> hit \/ ii,
        ii |-> ii,
        ab |-> pb \cap {0, 4} = {} /\ 2 \notin pa,
        ba |-> pa \cap {0, 4} = {} /\ 2 \notin pb,
        fb |-> \A k \in 1..nxb : SB[k] = {4},
        fa |-> \A k \in 1..nxa : SA[k] = {4}]

\* Relation of two leaves (points, line strings, polygons)
Leaf(a, b) ==
    CASE a.t = 1 /\ b.t = 1 -> PP(a.p, b.p)
      [] a.t = 1 /\ b.t = 2 -> PL(a.p, b.l)
      [] a.t = 1 /\ b.t = 3 -> PG(a.p, b.r)
      [] a.t = 2 /\ b.t = 1 -> Flip(PL(b.p, a.l))
      [] a.t = 2 /\ b.t = 2 -> LL(a.l, b.l)
      [] a.t = 2 /\ b.t = 3 -> LG(a.l, b.r)
      [] a.t = 3 /\ b.t = 1 -> Flip(PG(b.p, a.r))
      [] a.t = 3 /\ b.t = 2 -> Flip(LG(b.l, a.r))
      [] a.t = 3 /\ b.t = 3 -> GG(a.r, b.r)

\* ------------------------------------------------------------- collections
\* The non-empty leaves of a geometry, in order
RECURSIVE Leaves(_)
Leaves(g) ==
    CASE g.t = 0 -> << >>
      [] g.t = 4 -> LET F[i \in 0..Len(g.c)] == IF i = 0 THEN << >> ELSE F[i-1] \o Leaves(g.c[i])
                    IN F[Len(g.c)]
      [] OTHER -> <<g>>

\* All relations of two geometries, from the matrix of the relations of their
\* leaves.  Each is a pair <<value, decided>>; undecided only where a polygon
\* fills a hole of the other exactly.
Relations(a, b) ==
    LET A == Leaves(a)  B == Leaves(b)
        I == 1..Len(A)  J == 1..Len(B)
        M == TLCEval([i \in I |-> [j \in J |-> Leaf(A[i], B[j])]])
        fill == \E i \in I, j \in J : M[i][j].fb \/ M[i][j].fa
        some == I # {} /\ J # {}
        inter == \E i \in I, j \in J : M[i][j].i
        cov == some /\ \A j \in J : \E i \in I : M[i][j].ab
        cby == some /\ \A i \in I : \E j \in J : M[i][j].ba
        con == some /\ \A j \in J : \E i \in I : M[i][j].ab /\ M[i][j].ii
        wit == some /\ \A i \in I : \E j \in J : M[i][j].ba /\ M[i][j].ii
        tch == inter /\ \A i \in I, j \in J : M[i][j].i => ~M[i][j].ii
    IN [fill |-> fill,
        v |-> <<con /\ wit, inter, ~inter, con, wit, cov, cby, tch>>]
=============================================================================
