------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON (RFC 8259) over a sequence of bytes: a value is a node with its    *)
(* kind, the positions of its first byte and after its last one, and its   *)
(* members.  Kind 0 is an error.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
JObj == 1
JArr == 2
JStr == 3
JNum == 4
JTrue == 5
JFalse == 6
JNull == 7
MaxDepth == 1024
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
RECURSIVE Ws(_, _)
Ws(s, i) == IF At(s, i) \in {32, 9, 10, 13} THEN Ws(s, i+1) ELSE i
RECURSIVE Digits(_, _)
Digits(s, i) == IF IsDigit(At(s, i)) THEN Digits(s, i+1) ELSE i
\* the end of the number at i, or 0
NumEnd(s, i) ==
    LET a == IF At(s, i) = 45 THEN i+1 ELSE i
        b == IF At(s, a) = 48 THEN a+1 ELSE Digits(s, a)
        c == IF At(s, b) = 46 THEN Digits(s, b+1) ELSE b
        e == At(s, c) \in {69, 101}
        f == IF e THEN (IF At(s, c+1) \in {43, 45} THEN c+2 ELSE c+1) ELSE c
        g == IF e THEN Digits(s, f) ELSE c
    IN IF b = a \/ (At(s, b) = 46 /\ c = b+1) \/ (e /\ g = f) THEN 0 ELSE g
Cont(c) == c >= 128 /\ c <= 191
\* length of the UTF-8 character at i (Unicode table 3-7), or 0
Utf8(s, i) ==
    LET c == At(s, i)
        d == At(s, i+1)
    IN IF c >= 194 /\ c <= 223 THEN (IF Cont(d) THEN 2 ELSE 0)
       ELSE IF c >= 224 /\ c <= 239
       THEN (IF Cont(d) /\ (c # 224 \/ d >= 160) /\ (c # 237 \/ d <= 159) /\ Cont(At(s, i+2)) THEN 3 ELSE 0)
       ELSE IF c >= 240 /\ c <= 244
       THEN (IF Cont(d) /\ (c # 240 \/ d >= 144) /\ (c # 244 \/ d <= 143) /\ Cont(At(s, i+2)) /\ Cont(At(s, i+3)) THEN 4 ELSE 0)
       ELSE 0
\* the end of the string whose characters start at i, or 0
RECURSIVE StrEnd(_, _)
StrEnd(s, i) ==
    LET c == At(s, i)
        d == At(s, i+1)
    IN IF c < 32 THEN 0
       ELSE IF c = 34 THEN i+1
       ELSE IF c = 92
       THEN (IF d \in {34, 92, 47, 98, 102, 110, 114, 116} THEN StrEnd(s, i+2)
             ELSE IF d = 117 /\ \A k \in 2..5 : IsHex(At(s, i+k)) THEN StrEnd(s, i+6) ELSE 0)
       ELSE IF c < 128 THEN StrEnd(s, i+1)
       ELSE LET n == Utf8(s, i) IN IF n = 0 THEN 0 ELSE StrEnd(s, i+n)
JBad == [k |-> 0, a |-> 0, b |-> 0, c |-> <<>>]
Leaf(k, a, b) == IF b = 0 THEN JBad ELSE [k |-> k, a |-> a, b |-> b, c |-> <<>>]
Lit(s, i, t) == i+Len(t)-1 <= Len(s) /\ SubSeq(s, i, i+Len(t)-1) = t
RECURSIVE JVal(_, _, _), JItems(_, _, _, _, _), JPairs(_, _, _, _, _)
JVal(s, i0, depth) ==
    LET i == Ws(s, i0)
        c == At(s, i)
    IN IF depth > MaxDepth THEN JBad
       ELSE IF c = 123 THEN (LET j == Ws(s, i+1) IN IF At(s, j) = 125 THEN [k |-> JObj, a |-> i, b |-> j+1, c |-> <<>>] ELSE JPairs(s, i, j, depth, <<>>))
       ELSE IF c = 91 THEN (LET j == Ws(s, i+1) IN IF At(s, j) = 93 THEN [k |-> JArr, a |-> i, b |-> j+1, c |-> <<>>] ELSE JItems(s, i, j, depth, <<>>))
       ELSE IF c = 34 THEN Leaf(JStr, i, StrEnd(s, i+1))
       ELSE IF c = 45 \/ IsDigit(c) THEN Leaf(JNum, i, NumEnd(s, i))
       ELSE IF Lit(s, i, <<116, 114, 117, 101>>) THEN Leaf(JTrue, i, i+4)
       ELSE IF Lit(s, i, <<102, 97, 108, 115, 101>>) THEN Leaf(JFalse, i, i+5)
       ELSE IF Lit(s, i, <<110, 117, 108, 108>>) THEN Leaf(JNull, i, i+4)
       ELSE JBad
JItems(s, a, i, depth, acc) ==
    LET v == JVal(s, i, depth+1)
        j == Ws(s, v.b)
    IN IF v.k = 0 THEN JBad
       ELSE IF At(s, j) = 93 THEN [k |-> JArr, a |-> a, b |-> j+1, c |-> Append(acc, v)]
       ELSE IF At(s, j) = 44 THEN JItems(s, a, j+1, depth, Append(acc, v))
       ELSE JBad
JPairs(s, a, i0, depth, acc) ==
    LET i == Ws(s, i0)
        e == IF At(s, i) = 34 THEN StrEnd(s, i+1) ELSE 0
        q == Ws(s, e)
        v == IF e # 0 /\ At(s, q) = 58 THEN JVal(s, q+1, depth+1) ELSE JBad
        j == Ws(s, v.b)
        m == Append(acc, <<[k |-> JStr, a |-> i, b |-> e, c |-> <<>>], v>>)
    IN IF v.k = 0 THEN JBad
       ELSE IF At(s, j) = 125 THEN [k |-> JObj, a |-> a, b |-> j+1, c |-> m]
       ELSE IF At(s, j) = 44 THEN JPairs(s, a, j+1, depth, m)
       ELSE JBad
\* a whole text
JDoc(s) == LET v == JVal(s, 1, 1) IN IF v.k # 0 /\ Ws(s, v.b) = Len(s)+1 THEN v ELSE JBad
Raw(s, n) == SubSeq(s, n.a, n.b-1)
\* characters of a string node with its escapes resolved
HexVal(c) == IF c <= 57 THEN c-48 ELSE IF c <= 70 THEN c-55 ELSE c-87
RECURSIVE Chars(_, _, _)
Chars(s, i, e) ==
    IF i >= e THEN <<>>
    ELSE IF s[i] # 92 THEN <<s[i]>> \o Chars(s, i+1, e)
    ELSE LET d == s[i+1] IN
         IF d = 117 THEN <<((HexVal(s[i+2])*16 + HexVal(s[i+3]))*16 + HexVal(s[i+4]))*16 + HexVal(s[i+5])>> \o Chars(s, i+6, e)
         ELSE <<CASE d = 98 -> 8 [] d = 102 -> 12 [] d = 110 -> 10 [] d = 114 -> 13 [] d = 116 -> 9 [] OTHER -> d>> \o Chars(s, i+2, e)
StrIs(s, n, lit) == IF n.b - n.a - 2 = Len(lit) THEN SubSeq(s, n.a+1, n.b-2) = lit \/ Chars(s, n.a+1, n.b-1) = lit
                    ELSE n.b - n.a - 2 > Len(lit) /\ (\E i \in n.a..n.b-1 : s[i] = 92) /\ Chars(s, n.a+1, n.b-1) = lit
=============================================================================
