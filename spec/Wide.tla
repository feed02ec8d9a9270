-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Points, segments and triangles whose coordinates use all the digits     *)
(* that doubles have for products of differences: relations decided from   *)
(* signs of orientations alone, in arithmetic of two halves.  A shape is   *)
(* the sequence of its one, two or three corners (never degenerate).       *)
(* Differences of coordinates are below 2^27 in magnitude.                 *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
WSgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
WMag(x) == IF x < 0 THEN -x ELSE x
WH == 16384
\* a product of two naturals below 2^27, as three digits in base H
WMul(x, y) ==
    LET x1 == x \div WH  x0 == x % WH  y1 == y \div WH  y0 == y % WH
        lo == x0*y0
        mi == x1*y0 + x0*y1 + lo \div WH
    IN <<x1*y1 + mi \div WH, mi % WH, lo % WH>>
WCmpSeq(p, q) == IF p[1] # q[1] THEN WSgn(p[1]-q[1]) ELSE IF p[2] # q[2] THEN WSgn(p[2]-q[2]) ELSE WSgn(p[3]-q[3])
\* the sign of x*y - z*w
WCmpProd(x, y, z, w) ==
    LET s == WSgn(x)*WSgn(y)  t == WSgn(z)*WSgn(w)
    IN IF s # t THEN WSgn(s-t) ELSE IF s = 0 THEN 0 ELSE s * WCmpSeq(WMul(WMag(x), WMag(y)), WMul(WMag(z), WMag(w)))
\* on which side of the line from a to b is c: 1 left, -1 right, 0 on it
WSide(a, b, c) == WCmpProd(b[1]-a[1], c[2]-a[2], b[2]-a[2], c[1]-a[1])
WMn(x, y) == IF x < y THEN x ELSE y
WMx(x, y) == IF x > y THEN x ELSE y
WInBox(p, a, b) == /\ WMn(a[1], b[1]) <= p[1] /\ p[1] <= WMx(a[1], b[1])
                  /\ WMn(a[2], b[2]) <= p[2] /\ p[2] <= WMx(a[2], b[2])

WCcw(A) == IF Len(A) = 3 /\ WSide(A[1], A[2], A[3]) < 0 THEN <<A[1], A[3], A[2]>> ELSE A
WEdge(A) == CASE Len(A) = 1 -> {} [] Len(A) = 2 -> {<<A[1], A[2]>>}
             [] Len(A) = 3 -> {<<A[1], A[2]>>, <<A[2], A[3]>>, <<A[3], A[1]>>}
WCorners(A) == {A[i] : i \in 1..Len(A)}
\* 0 outside, 1 boundary, 2 interior
WAt(p, A) ==
    CASE Len(A) = 1 -> IF p = A[1] THEN 2 ELSE 0
      [] Len(A) = 2 -> IF p \in WCorners(A) THEN 1 ELSE IF WSide(A[1], A[2], p) = 0 /\ WInBox(p, A[1], A[2]) THEN 2 ELSE 0
      [] Len(A) = 3 -> LET s == {WSide(e[1], e[2], p) : e \in WEdge(A)} IN IF -1 \in s THEN 0 ELSE IF 0 \in s THEN 1 ELSE 2
WSegsMeet(e, f) ==
    \/ WAt(e[1], f) > 0 \/ WAt(e[2], f) > 0 \/ WAt(f[1], e) > 0 \/ WAt(f[2], e) > 0
    \/ WSide(e[1], e[2], f[1]) * WSide(e[1], e[2], f[2]) = -1 /\ WSide(f[1], f[2], e[1]) * WSide(f[1], f[2], e[2]) = -1
\* A and B are on different sides of the line along e, or on it
WParts(e, A, B) ==
    LET sa == {WSide(e[1], e[2], p) : p \in WCorners(A)}  sb == {WSide(e[1], e[2], p) : p \in WCorners(B)}
    IN (1 \notin sa /\ -1 \notin sb) \/ (-1 \notin sa /\ 1 \notin sb)
WIntersects(A, B) == \/ \E p \in WCorners(A) : WAt(p, B) > 0
                     \/ \E p \in WCorners(B) : WAt(p, A) > 0
                     \/ \E e \in WEdge(A), f \in WEdge(B) : WSegsMeet(e, f)
WInteriors(A, B) ==
    CASE Len(A) = 1 -> WAt(A[1], B) = 2
      [] Len(B) = 1 -> WAt(B[1], A) = 2
      [] Len(A) = 2 /\ Len(B) = 2 ->
            IF WSide(A[1], A[2], B[1]) = 0 /\ WSide(A[1], A[2], B[2]) = 0  \* on one line: with more than a point in common
            THEN \/ WAt(A[1], B) = 2 \/ WAt(A[2], B) = 2 \/ WAt(B[1], A) = 2 \/ WAt(B[2], A) = 2 \/ WCorners(A) = WCorners(B)
            ELSE /\ WSide(A[1], A[2], B[1]) * WSide(A[1], A[2], B[2]) = -1
                 /\ WSide(B[1], B[2], A[1]) * WSide(B[1], B[2], A[2]) = -1
      [] OTHER -> ~\E e \in WEdge(A) \cup WEdge(B) : WParts(e, A, B)
WCovers(A, B) == \A p \in WCorners(B) : WAt(p, A) > 0
\* equals, intersects, disjoint, contains, within, covers, coveredby, touches
WRelations(A0, B0) ==
    LET A == WCcw(A0)  B == WCcw(B0)
        i == WIntersects(A, B)  m == WInteriors(A, B)  c == WCovers(A, B)  d == WCovers(B, A)
    IN <<c /\ d /\ m, i, ~i, c /\ m, d /\ m, c, d, i /\ ~m>>
=============================================================================
