------------------------------ MODULE GeoText ------------------------------
(***************************************************************************)
(* WKT and GeoJSON.  Decoders yield [ok, g] with ok 0 malformed, 1 the     *)
(* geometry g whose coordinates are the texts of its numbers, 2 undecided  *)
(* (whether two long numbers are the same double).  Encoders yield texts   *)
(* with the numbers left open.                                             *)
(***************************************************************************)
EXTENDS Geo, JsonText, TLC
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = c)]
B(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
TNo == [ok |-> 0, g |-> <<>>]
TYes(g) == [ok |-> 1, g |-> g]
\* the same number, another, or too close to tell: 1, 0, 2
SameNum(a, b) == IF a = b THEN 1
                 ELSE LET x == Num(a)
                          y == Num(b)
                      IN IF NumEq(x, y) THEN 1 ELSE IF Len(x.ds) > 15 \/ Len(y.ds) > 15 \/ x.q > 250 \/ x.q < -280 THEN 2 ELSE 0
And3(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 2 \/ b = 2 THEN 2 ELSE 1
RECURSIVE All3(_)
All3(s) == IF s = <<>> THEN 1 ELSE And3(s[1], All3(Tail(s)))
ClosedT(r) == And3(SameNum(r[1][1], r[Len(r)][1]), SameNum(r[1][2], r[Len(r)][2]))
LineT(l) == IF Len(l) >= 2 THEN 1 ELSE 0
RingT(r) == IF Len(r) >= 3 THEN ClosedT(r) ELSE 0
PolyT(p) == IF Len(p) >= 1 THEN All3([i \in 1..Len(p) |-> RingT(p[i])]) ELSE 0
ShapeT(t, s) == CASE t \in {1, 4} -> 1 [] t = 2 -> LineT(s) [] t = 3 -> PolyT(s)
                  [] t = 5 -> All3([i \in 1..Len(s) |-> LineT(s[i])]) [] OTHER -> All3([i \in 1..Len(s) |-> PolyT(s[i])])
\* all positions of a shape
Posl(t, s) == CASE t \in {1, 2, 4} -> s [] t \in {3, 5} -> FlattenSeq(s) [] OTHER -> FlattenSeq([i \in 1..Len(s) |-> FlattenSeq(s[i])])

(***************************************************************************)
(* GeoJSON                                                                 *)
(***************************************************************************)
TypeNames == <<B("Point"), B("LineString"), B("Polygon"), B("MultiPoint"), B("MultiLineString"), B("MultiPolygon"),
               B("GeometryCollection"), B("Feature"), B("FeatureCollection")>>
TargetNames == <<B("coordinates"), B("geometries"), B("geometry"), B("features")>>
Target(t) == TargetNames[IF t <= 6 THEN 1 ELSE t-5]
Min4(n) == IF n > 4 THEN 4 ELSE n
\* nested arrays of numbers, depth levels of arrays around positions
RECURSIVE ArrOk(_, _), ArrVal(_, _, _)
ArrOk(n, depth) == n.k = JArr /\ (IF depth = 0 THEN Len(n.c) >= 2 /\ \A i \in 1..Len(n.c) : n.c[i].k = JNum
                                  ELSE \A i \in 1..Len(n.c) : ArrOk(n.c[i], depth-1))
ArrVal(s, n, depth) == IF depth = 0 THEN [i \in 1..Min4(Len(n.c)) |-> Raw(s, n.c[i])]
                       ELSE [i \in 1..Len(n.c) |-> ArrVal(s, n.c[i], depth-1)]
Fst(I) == CHOOSE i \in I : \A j \in I : i <= j
Lst(I) == CHOOSE i \in I : \A j \in I : i >= j
\* additional members as one JSON object, in order
Extra(s, n, I) == IF I = {} THEN <<>>
                  ELSE LET ps == SelectSeq([i \in 1..Len(n.c) |-> <<i, n.c[i]>>], LAMBDA p : p[1] \in I)
                       IN FlattenSeq([i \in 1..Len(ps) |-> <<IF i = 1 THEN 123 ELSE 44>> \o Raw(s, ps[i][2][1]) \o <<58>> \o Raw(s, ps[i][2][2])]) \o <<125>>
RECURSIVE GJ(_, _)
GJ(s, n) ==
    IF n.k # JObj THEN TNo
    ELSE
    LET K(i, name) == StrIs(s, n.c[i][1], name)
        V(i) == n.c[i][2]
        Is(name) == {i \in 1..Len(n.c) : K(i, name)}
        types == Is(B("type"))
        tv == V(Fst(types))
        tset == {t \in 1..9 : tv.k = JStr /\ StrIs(s, tv, TypeNames[t])}
        t == CHOOSE x \in tset : TRUE
        targets == Is(Target(t))
        tg == V(Lst(targets))
        other == (1..Len(n.c)) \ (types \cup targets)
        \* of a feature
        props == Is(B("properties")) \cap other
        ids == Is(B("id")) \cap other
        p1 == V(Fst(props))
        drop == (props \ {Fst(props)}) \cup (IF p1.k = JNull \/ p1.c = <<>> THEN {Fst(props)} ELSE {})
        fx == (other \ (IF props = {} THEN {} ELSE drop)) \ (IF ids = {} THEN {} ELSE ids \ {Fst(ids)})
        np == props # {} /\ p1.k = JNull
        fextra == Extra(s, n, fx)
        g == GJ(s, tg)
        gj == IF tg.k = JNull THEN <<>> ELSE g.g.j
        kids == [i \in 1..Len(tg.c) |-> GJ(s, tg.c[i])]
        ok3 == All3([i \in 1..Len(kids) |-> kids[i].ok])
        depth == CASE t = 1 -> 0 [] t \in {2, 4} -> 1 [] t \in {3, 5} -> 2 [] OTHER -> 3
        cv == ArrVal(s, tg, depth)
        cs == IF t = 1 THEN <<cv>> ELSE cv
        ps == Posl(t, cs)
        d == Len(ps[1])
        extra == Extra(s, n, other)
    IN IF types = {} THEN TNo
       ELSE IF tset = {} \/ targets = {} THEN TNo
       ELSE IF t = 8
       THEN (IF props # {} /\ p1.k \notin {JNull, JObj} THEN TNo
             ELSE IF ids # {} /\ V(Fst(ids)).k \notin {JStr, JNum} THEN TNo
             ELSE IF tg.k = JNull THEN TYes([NoPos(1) EXCEPT !.ft = 1, !.ul = TRUE, !.np = np, !.j = fextra])
             ELSE IF tg.k # JObj \/ g.ok = 0 THEN TNo
             ELSE IF g.g.ft = 1 \/ g.g.fc = 1 THEN TNo
             ELSE [g EXCEPT !.g = [g.g EXCEPT !.ft = 1, !.np = np,
                       !.j = IF gj = <<>> THEN fextra
                             ELSE <<91>> \o (IF fextra = <<>> THEN <<123, 125>> ELSE fextra) \o <<44>> \o gj \o <<93>>]])
       ELSE IF tg.k # JArr THEN TNo
       ELSE IF t \in {7, 9}
       THEN (IF ok3 = 0 THEN TNo
             ELSE IF \E i \in 1..Len(kids) : (t = 9) # (kids[i].g.ft = 1) \/ kids[i].g.fc = 1 THEN TNo
             ELSE [ok |-> ok3, g |-> [Coll([i \in 1..Len(kids) |-> kids[i].g]) EXCEPT !.fc = IF t = 9 THEN 1 ELSE 0, !.j = extra]])
       ELSE IF tg.c = <<>> THEN TYes([NoPos(t) EXCEPT !.j = extra])
       ELSE IF ~ArrOk(tg, depth) THEN TNo
       ELSE IF \E i \in 1..Len(ps) : Len(ps[i]) # d THEN TNo
       ELSE LET sh == ShapeT(t, cs) IN
            IF sh = 0 THEN TNo
            ELSE [ok |-> sh, g |-> [Geo(t, IF d >= 3 THEN 1 ELSE 0, IF d = 4 THEN 1 ELSE 0, cs) EXCEPT !.j = extra]]
DecJson(s) == LET v == JDoc(s) IN IF v.k = 0 THEN TNo ELSE GJ(s, v)

(***************************************************************************)
(* WKT                                                                     *)
(***************************************************************************)
Upper(c) == IF c >= 97 /\ c <= 122 THEN c-32 ELSE c
Letter(c) == LET u == Upper(c) IN u >= 65 /\ u <= 90
RECURSIVE Word(_, _)
Word(s, i) == IF Letter(At(s, i)) THEN Word(s, i+1) ELSE i
WType == <<B("POINT"), B("LINESTRING"), B("POLYGON"), B("MULTIPOINT"), B("MULTILINESTRING"), B("MULTIPOLYGON"), B("GEOMETRYCOLLECTION")>>
Sfx == <<<<>>, B("Z"), B("M"), B("ZM")>>
Empty == B("EMPTY")
Up(s, i, j) == [k \in 1..j-i |-> Upper(s[i+k-1])]
\* number at i: its end, or 0.  A number must be followed by a separator.
WNum(s, i) ==
    LET a == IF At(s, i) = 45 THEN i+1 ELSE i
        b == Digits(s, a)
        c == IF At(s, b) = 46 THEN Digits(s, b+1) ELSE b
        e == At(s, c) \in {69, 101}
        f == IF e THEN (IF At(s, c+1) \in {43, 45} THEN c+2 ELSE c+1) ELSE c
        g == IF e THEN Digits(s, f) ELSE c
    IN IF (b = a /\ At(s, b) # 46) \/ (At(s, b) = 46 /\ c = b+1) \/ (e /\ g = f) \/ At(s, g) \notin {32, 9, 10, 13, 40, 41, 44} THEN 0 ELSE g
\* results of the parts: [i |-> next byte or 0, v |-> value]
WBad == [i |-> 0, v |-> <<>>]
RECURSIVE WPos(_, _, _), WList(_, _, _, _), WPosns(_, _, _, _)
\* the coordinates of a position: numbers separated by white space
WPos(s, i, acc) ==
    LET e == WNum(s, i)
        j == Ws(s, e)
        v == Append(acc, SubSeq(s, i, e-1))
    IN IF e = 0 THEN WBad
       ELSE IF j > e /\ (IsDigit(At(s, j)) \/ At(s, j) \in {45, 46}) THEN WPos(s, j, v)
       ELSE [i |-> j, v |-> v]
\* positions up to the closing parenthesis; par: each in its own parentheses
WPosns(s, i0, par, acc) ==
    LET i == Ws(s, i0)
        p == WPos(s, IF par THEN Ws(s, i+1) ELSE i, <<>>)
        q == IF par THEN Ws(s, p.i+1) ELSE p.i
        v == Append(acc, p.v)
    IN IF par /\ At(s, i) # 40 THEN WBad
       ELSE IF p.i = 0 THEN WBad
       ELSE IF par /\ At(s, p.i) # 41 THEN WBad
       ELSE IF At(s, q) = 44 THEN WPosns(s, q+1, par, v)
       ELSE IF At(s, q) = 41 THEN [i |-> q+1, v |-> v]
       ELSE WBad
\* the body after an opening parenthesis of nested lists of positions
WBody(s, i, depth, mp) ==
    LET j == Ws(s, i) IN
    IF At(s, j) = 41 THEN [i |-> j+1, v |-> <<>>]
    ELSE IF depth = 1 THEN WPosns(s, j, mp /\ At(s, j) = 40, <<>>)
    ELSE WList(s, j, depth, <<>>)
WList(s, i0, depth, acc) ==
    LET i == Ws(s, i0)
        r == IF At(s, i) = 40 THEN (IF depth = 2 THEN (LET j == Ws(s, i+1) IN IF At(s, j) = 41 THEN [i |-> j+1, v |-> <<>>] ELSE WPosns(s, j, FALSE, <<>>))
                                    ELSE (LET j == Ws(s, i+1) IN IF At(s, j) = 41 THEN [i |-> j+1, v |-> <<>>] ELSE WList(s, j, depth-1, <<>>)))
             ELSE WBad
        q == Ws(s, r.i)
        v == Append(acc, r.v)
    IN IF r.i = 0 THEN WBad
       ELSE IF At(s, q) = 44 THEN WList(s, q+1, depth, v)
       ELSE IF At(s, q) = 41 THEN [i |-> q+1, v |-> v]
       ELSE WBad
WFail == [ok |-> 0, i |-> 0, g |-> <<>>]
RECURSIVE WGeom(_, _, _), WKids(_, _, _, _)
WGeom(s, i0, depth) ==
    LET i == Ws(s, i0)
        e1 == Word(s, i)
        w1 == Up(s, i, e1)
        f == {p \in (1..7) \X (1..4) : w1 = WType[p[1]] \o Sfx[p[2]]}
        t == (CHOOSE p \in f : TRUE)[1]
        x1 == (CHOOSE p \in f : TRUE)[2]
        i2 == Ws(s, e1)
        e2 == Word(s, i2)
        w2 == Up(s, i2, e2)
        zm == x1 = 1 /\ w2 \in {Sfx[2], Sfx[3], Sfx[4]}
        x == IF zm THEN (CHOOSE k \in 2..4 : Sfx[k] = w2) ELSE x1
        i3 == IF zm THEN Ws(s, e2) ELSE i2
        e3 == Word(s, i3)
        w3 == Up(s, i3, e3)
        i4 == Ws(s, e3)
        want == CASE x = 1 -> 0 [] x = 4 -> 4 [] OTHER -> 3
        body == IF t = 1 THEN (LET p == WPos(s, Ws(s, i3+1), <<>>) IN IF p.i # 0 /\ At(s, p.i) = 41 THEN [i |-> p.i+1, v |-> <<p.v>>] ELSE WBad)
                ELSE WBody(s, i3+1, CASE t \in {2, 4} -> 1 [] t \in {3, 5} -> 2 [] OTHER -> 3, t = 4)
        ps == Posl(t, body.v)
        d == IF ps = <<>> THEN (IF want = 0 THEN 2 ELSE want) ELSE Len(ps[1])
        sh == ShapeT(t, body.v)
        z == IF x \in {2, 4} \/ (x = 1 /\ d >= 3) THEN 1 ELSE 0
        m == IF x \in {3, 4} \/ (x = 1 /\ d = 4) THEN 1 ELSE 0
    IN IF f = {} \/ depth > MaxDepth THEN WFail
       ELSE IF w3 # <<>> THEN (IF w3 = Empty THEN [ok |-> 1, i |-> i4, g |-> NoPos(t)] ELSE WFail)
       ELSE IF At(s, i3) # 40 THEN WFail
       ELSE IF t = 7 THEN WKids(s, i3+1, depth, <<>>)
       ELSE IF body.i = 0 THEN WFail
       ELSE IF \E k \in 1..Len(ps) : Len(ps[k]) # d THEN WFail
       ELSE IF d < 2 \/ d > 4 \/ (want # 0 /\ d # want) \/ sh = 0 THEN WFail
       ELSE [ok |-> sh, i |-> Ws(s, body.i), g |-> Geo(t, z, m, body.v)]
WKids(s, i, depth, acc) ==
    LET r == WGeom(s, i, depth+1)
        v == Append(acc, r)
    IN IF r.ok = 0 THEN WFail
       ELSE IF At(s, r.i) = 44 THEN WKids(s, r.i+1, depth, v)
       ELSE IF At(s, r.i) = 41 THEN [ok |-> All3([k \in 1..Len(v) |-> v[k].ok]), i |-> Ws(s, r.i+1), g |-> Coll([k \in 1..Len(v) |-> v[k].g])]
       ELSE WFail
DecWkt(s) == LET r == WGeom(s, 1, 1) IN IF r.ok # 0 /\ r.i = Len(s)+1 THEN [ok |-> r.ok, g |-> r.g] ELSE TNo

(***************************************************************************)
(* Encoding: a sequence of pieces, each a text <<0, bytes>>, a number      *)
(* <<1, double>>, or a choice of texts <<2, bytes, bytes>>.                *)
(***************************************************************************)
Txt(b) == <<<<0, b>>>>
RECURSIVE Join(_, _)
Join(l, sep) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o Txt(sep) \o Join(Tail(l), sep)
WrapT(x, a, b) == Txt(a) \o x \o Txt(b)
LP == <<40>>
RP == <<41>>
LB == <<91>>
RB == <<93>>
CM == <<44>>
\* kind w (WKT) or j (GeoJSON): positions, lists of positions, ...
TPos(w, p) == IF w THEN Join([i \in 1..Len(p) |-> <<<<1, p[i]>>>>], <<32>>) ELSE WrapT(Join([i \in 1..Len(p) |-> <<<<1, p[i]>>>>], CM), LB, RB)
Par(w, x) == WrapT(x, IF w THEN LP ELSE LB, IF w THEN RP ELSE RB)
TL(w, l) == Par(w, Join([i \in 1..Len(l) |-> TPos(w, l[i])], CM))
TR(w, l) == Par(w, Join([i \in 1..Len(l) |-> TL(w, l[i])], CM))
TM(w, l) == Par(w, Join([i \in 1..Len(l) |-> TR(w, l[i])], CM))
RECURSIVE EncWkt(_)
EncWkt(g) ==
    LET zm == IF g.m = 1 /\ g.z = 0 THEN B(" M") ELSE <<>>
        all == (CASE g.t \in {5, 6} -> g.s = <<>> [] g.t = 7 -> g.c = <<>> [] OTHER -> IsEmpty(g))
    IN IF all THEN Txt(WType[g.t] \o (IF g.t \in {4, 5, 6} THEN zm ELSE <<>>) \o B(" EMPTY"))
       ELSE Txt(WType[g.t] \o zm) \o
            (CASE g.t = 1 -> Par(TRUE, TPos(TRUE, g.s[1]))
               [] g.t \in {2, 4} -> TL(TRUE, g.s)
               [] g.t \in {3, 5} -> TR(TRUE, g.s)
               [] g.t = 6 -> TM(TRUE, g.s)
               [] OTHER -> Par(TRUE, Join([i \in 1..Len(g.c) |-> EncWkt(g.c[i])], CM)))
\* members of a JSON object text, each as key and value texts
ObjOf(j) == IF j = <<>> THEN [k |-> 0, c |-> <<>>] ELSE JDoc(j)
Mem(j, p) == CM \o Raw(j, p[1]) \o <<58>> \o Raw(j, p[2])
NullGeom == B("null")
RECURSIVE EncJson(_)
EncJson(g) ==
    LET n == ObjOf(g.j)
        two == n.k = JArr                                   \* [feature's, geometry's]
        fn == IF g.ft = 0 THEN [k |-> 0, c |-> <<>>] ELSE IF two THEN n.c[1] ELSE n
        gn == IF g.ft = 0 THEN n ELSE IF two THEN n.c[2] ELSE [k |-> 0, c |-> <<>>]
        more == FlattenSeq([i \in 1..Len(gn.c) |-> Mem(g.j, gn.c[i])])
        nm == IF g.fc = 1 THEN 9 ELSE g.t
        body == Txt(B("{\"type\":\"") \o TypeNames[nm] \o B("\",\"") \o Target(nm) \o B("\":")) \o
                (CASE g.t = 1 -> (IF g.s = <<>> THEN Txt(B("[]")) ELSE TPos(FALSE, g.s[1]))
                   [] g.t \in {2, 4} -> TL(FALSE, g.s)
                   [] g.t \in {3, 5} -> TR(FALSE, g.s)
                   [] g.t = 6 -> TM(FALSE, g.s)
                   [] OTHER -> Par(FALSE, Join([i \in 1..Len(g.c) |-> EncJson(g.c[i])], CM)))
                \o Txt(more \o B("}"))
        isId(p) == StrIs(g.j, p[1], B("id"))
        isProps(p) == StrIs(g.j, p[1], B("properties"))
        ids == SelectSeq(fn.c, isId)
        rest == SelectSeq(fn.c, LAMBDA p : ~isId(p))
        props == SelectSeq(rest, isProps)
    IN IF g.ft = 0 THEN body
       ELSE Txt(B("{\"type\":\"Feature\",") \o
                (IF ids = <<>> THEN <<>> ELSE B("\"id\":") \o Raw(g.j, ids[1][2]) \o CM) \o B("\"geometry\":"))
            \o (IF g.ul THEN Txt(NullGeom) ELSE body)
            \o Txt(FlattenSeq([i \in 1..Len(rest) |-> Mem(g.j, rest[i])]))
            \o (IF props # <<>> THEN Txt(B("}")) ELSE Txt(B(",\"properties\":") \o (IF g.np THEN B("null") ELSE B("{}")) \o B("}")))

(***************************************************************************)
(* A text is what an encoder asks for: numbers are JSON numbers that read  *)
(* as the double, 0 for doubles that are not normal; without exponent if   *)
(* plain, else in the shorter notation; of the fewest digits if deep.      *)
(***************************************************************************)
NumChar(c) == IsDigit(c) \/ c \in {43, 45, 46, 69, 101}
RECURSIVE NumStop(_, _)
NumStop(s, i) == IF NumChar(At(s, i)) THEN NumStop(s, i+1) ELSE i
\* length of a number's plain and scientific text
DecLen(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE 3
PlainLen(n) == LET k == Len(n.ds) IN IF n.q >= 0 THEN k+n.q ELSE IF k > -n.q THEN k+1 ELSE 2-n.q
SciLen(n) == LET k == Len(n.ds)
                 e == k+n.q-1
             IN k + (IF k > 1 THEN 1 ELSE 0) + 1 + (IF e < 0 THEN 1+DecLen(-e) ELSE DecLen(e))
NoLonger(tx) == LET n == Num(tx)
                    sgn == IF n.neg THEN 1 ELSE 0
                IN Len(tx) <= sgn + PlainLen(n) /\ Len(tx) <= sgn + SciLen(n)
GoodNum(tx, d, plain, deep) ==
    IF ~DNormal(d) THEN tx = <<48>>
    ELSE /\ tx # <<>> /\ NumEnd(tx, 1) = Len(tx)+1
         /\ Nearest(Num(tx), d)
         /\ IF plain THEN \A i \in 1..Len(tx) : tx[i] \notin {69, 101} ELSE NoLonger(tx)
         /\ deep => Shortest(Num(tx), d)
RECURSIVE MatchAt(_, _, _, _, _, _)
MatchAt(ps, k, s, i, plain, deep) ==
    IF k > Len(ps) THEN (IF i = Len(s)+1 THEN 0 ELSE i)
    ELSE LET p == ps[k] IN
         IF p[1] = 0 THEN (IF Lit(s, i, p[2]) THEN MatchAt(ps, k+1, s, i+Len(p[2]), plain, deep) ELSE i)
         ELSE LET e == NumStop(s, i) IN
              IF GoodNum(SubSeq(s, i, e-1), p[2], plain, deep) THEN MatchAt(ps, k+1, s, e, plain, deep) ELSE i
\* where the text s departs from the pieces, or 0
Departs(ps, s, plain, deep) == MatchAt(ps, 1, s, 1, plain, deep)
=============================================================================
