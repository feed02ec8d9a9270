-------------------------------- MODULE Dbl --------------------------------
(***************************************************************************)
(* Numbers.  A double is the sequence of its eight bytes, least            *)
(* significant first.  A decimal is the text it is written with.  Both are *)
(* compared exactly, as big integers in base 10^4.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
DZero == <<0, 0, 0, 0, 0, 0, 0, 0>>
DNeg(d) == d[8] >= 128
DExp(d) == (d[8] % 128)*16 + d[7] \div 16
DFracZero(d) == d[7] % 16 = 0 /\ \A i \in 1..6 : d[i] = 0
DNaN(d) == DExp(d) = 2047 /\ ~DFracZero(d)
DIsZero(d) == DExp(d) = 0 /\ DFracZero(d)
DNormal(d) == DExp(d) \in 1..2046
\* order of magnitudes, then of numbers (not for NaN)
RECURSIVE MagLess(_, _, _)
MagLess(a, b, i) == LET x == IF i = 8 THEN a[8] % 128 ELSE a[i]
                        y == IF i = 8 THEN b[8] % 128 ELSE b[i]
                    IN IF i = 0 THEN FALSE ELSE IF x # y THEN x < y ELSE MagLess(a, b, i-1)
DEq(a, b) == a = b \/ (DIsZero(a) /\ DIsZero(b))
DLess(a, b) == IF DIsZero(a) /\ DIsZero(b) THEN FALSE
               ELSE IF DNeg(a) # DNeg(b) THEN DNeg(a)
               ELSE IF DNeg(a) THEN MagLess(b, a, 8) ELSE MagLess(a, b, 8)

(***************************************************************************)
(* Natural numbers: limbs in base 10^4, least significant first, the last  *)
(* one not zero.                                                           *)
(***************************************************************************)
RECURSIVE Carry(_)
Carry(c) == IF c = 0 THEN <<>> ELSE <<c % 10000>> \o Carry(c \div 10000)
\* a*k + c, for k <= 2^17
MulAdd(a, k, c) ==
    LET r == FoldLeft(LAMBDA acc, x : LET v == x*k + acc[1] IN <<v \div 10000, Append(acc[2], v % 10000)>>, <<c, <<>>>>, a)
    IN r[2] \o Carry(r[1])
RECURSIVE MulPow2(_, _)
MulPow2(a, p) == IF p = 0 THEN a ELSE IF p >= 17 THEN MulPow2(MulAdd(a, 131072, 0), p-17) ELSE MulAdd(a, 2^p, 0)
MulPow10(a, q) == IF a = <<>> THEN a ELSE [i \in 1..(q \div 4) |-> 0] \o MulAdd(a, 10^(q % 4), 0)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpAt(a, b, i-1)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpAt(a, b, Len(a))
Sub1(a, c) == \* a - c for a small c <= a
    LET r == FoldLeft(LAMBDA acc, x : LET v == x - acc[1] IN IF v < 0 THEN <<1, Append(acc[2], v+10000)>> ELSE <<0, Append(acc[2], v)>>, <<c, <<>>>>, a)[2]
    IN IF r # <<>> /\ r[Len(r)] = 0 THEN SubSeq(r, 1, Len(r)-1) ELSE r

(***************************************************************************)
(* Decimal texts: [-]digits[.digits][e[+-]digits], either digits around    *)
(* the point may be missing.  Reading one: its sign, its digits without    *)
(* leading and trailing zeros, and the power of ten of the last digit.     *)
(***************************************************************************)
IsDig(c) == c >= 48 /\ c <= 57
RECURSIVE DigEnd(_, _)
DigEnd(s, i) == IF i <= Len(s) /\ IsDig(s[i]) THEN DigEnd(s, i+1) ELSE i
RECURSIVE SkipZ(_, _)
SkipZ(s, i) == IF i <= Len(s) /\ s[i] = 48 THEN SkipZ(s, i+1) ELSE i
RECURSIVE LastNZ(_, _)
LastNZ(s, i) == IF i >= 1 /\ s[i] = 48 THEN LastNZ(s, i-1) ELSE i
ToInt(s) == FoldLeft(LAMBDA acc, c : acc*10 + (c-48), 0, s)
Num(s) ==
    LET neg == Len(s) > 0 /\ s[1] = 45
        i0 == IF neg THEN 2 ELSE 1
        i1 == DigEnd(s, i0)
        pt == i1 <= Len(s) /\ s[i1] = 46
        i2 == IF pt THEN DigEnd(s, i1+1) ELSE i1
        ip == SubSeq(s, i0, i1-1)
        fp == IF pt THEN SubSeq(s, i1+1, i2-1) ELSE <<>>
        all == ip \o fp
        lz == SkipZ(all, 1)
        tz == LastNZ(all, Len(all))
        ds == SubSeq(all, lz, tz)
        ex == IF i2 <= Len(s)
              THEN LET sg == s[i2+1]
                       j == IF sg \in {43, 45} THEN i2+2 ELSE i2+1
                       t == SubSeq(s, SkipZ(s, j), Len(s))
                       v == IF Len(t) > 6 THEN 1000000 ELSE ToInt(t)
                   IN IF sg = 45 THEN -v ELSE v
              ELSE 0
    IN [neg |-> neg, ds |-> ds, q |-> IF ds = <<>> THEN 0 ELSE ex - Len(fp) + (Len(all) - tz)]
NumEq(a, b) == a.ds = b.ds /\ a.q = b.q /\ (a.neg = b.neg \/ a.ds = <<>>)
Limbs(ds) == \* decimal digits (as bytes) to a natural number
    LET n == Len(ds)
        D(k) == IF k >= 1 THEN ds[k]-48 ELSE 0
    IN [j \in 1..((n+3) \div 4) |-> D(n-4*j+4) + 10*D(n-4*j+3) + 100*D(n-4*j+2) + 1000*D(n-4*j+1)]
\* The mantissa as a natural number, and the power of two.
Mant(d) == FoldLeft(LAMBDA a, c : MulAdd(a, 256, c), Carry(IF DExp(d) = 0 THEN d[7] % 16 ELSE 16 + (d[7] % 16)),
                    <<d[6], d[5], d[4], d[3], d[2], d[1]>>)
\* Bounds of the decimals whose nearest double is |d|, times four: the
\* neighbours' midpoints; they belong to d when its mantissa is even.
Bounds(d) ==
    LET M == MulAdd(Mant(d), 4, 0)
        p == (IF DExp(d) = 0 THEN -1074 ELSE DExp(d) - 1075)
        low == IF M = <<>> THEN <<>> ELSE Sub1(M, IF DFracZero(d) /\ DExp(d) > 1 THEN 1 ELSE 2)
    IN [lo |-> low, hi |-> MulAdd(M, 1, 2), p |-> p, even |-> d[1] % 2 = 0, zero |-> M = <<>>, inf |-> DExp(d) = 2047]
\* digits ds times 10^q within the bounds
Within(B, ds, q) ==
    LET e10 == Len(ds) + q
        D4 == MulPow2(MulAdd(Limbs(ds), 4, 0), IF B.p < 0 THEN -B.p ELSE 0)
        A == IF q >= 0 THEN MulPow10(D4, q) ELSE D4
        Sc(x) == LET y == IF B.p > 0 THEN MulPow2(x, B.p) ELSE x IN IF q < 0 THEN MulPow10(y, -q) ELSE y
        above == B.zero \/ (LET c == Cmp(Sc(B.lo), A) IN c < 0 \/ (c = 0 /\ B.even))
        below == B.inf \/ (LET c == Cmp(A, Sc(B.hi)) IN c < 0 \/ (c = 0 /\ B.even))
    IN IF e10 > 310 THEN B.inf ELSE IF e10 < -330 THEN B.zero ELSE above /\ below
\* d is the double nearest to the decimal n (an overflow is infinite)
Nearest(n, d) == /\ ~DNaN(d) /\ n.neg = DNeg(d)
                 /\ IF n.ds = <<>> THEN DIsZero(d) ELSE Within(Bounds(d), n.ds, n.q)
\* no decimal with fewer digits reads as d
RECURSIVE Incr(_)
Incr(ds) == IF ds = <<>> THEN <<49>> ELSE LET n == Len(ds) IN
            IF ds[n] = 57 THEN Append(Incr(SubSeq(ds, 1, n-1)), 48) ELSE SubSeq(ds, 1, n-1) \o <<ds[n]+1>>
Shortest(n, d) == LET k == Len(n.ds)
                      c == SubSeq(n.ds, 1, k-1)
                      B == Bounds(d)
                  IN k <= 1 \/ (~Within(B, c, n.q+1) /\ ~Within(B, Incr(c), n.q+1))
=============================================================================
