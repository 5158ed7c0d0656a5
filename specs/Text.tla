-------------------------------- MODULE Text --------------------------------
(* The text forms of the library, as grammars over sequences of character      *)
(* codes: coordinates, bounds, index sets, compression options, dates, colours.*)
(* A parser is a function from the text to [ok, ...]; "lax" marks texts whose  *)
(* acceptance is not documented (both outcomes are allowed, but an accepted    *)
(* text has to denote the value given here).                                   *)
EXTENDS Integers, Sequences, FiniteSets
Digit(c) == c >= 48 /\ c <= 57
Blank(c) == c \in {9, 32}
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
UpperAll(t) == [ k \in 1..Len(t) |-> Upper(t[k]) ]
(* dimensions Z C T R S I H V B are numbered 1..9; 0: not a dimension *)
DimChars == << 90, 67, 84, 82, 83, 73, 72, 86, 66 >>
DimOf(c) == IF \E d \in 1..9 : DimChars[d] = Upper(c) THEN CHOOSE d \in 1..9 : DimChars[d] = Upper(c) ELSE 0
Digits == 48..57
Blanks == {9, 32}
Whites == {9, 10, 11, 12, 13, 32}
Seps == {9, 32, 44, 59}
Alnums == Digits \cup (65..90) \cup (97..122)
(* the first position from p on whose character is not in the set cs *)
Skip(t, p, cs) == IF p > Len(t) THEN p ELSE LET k == { x \in p..Len(t) : t[x] \notin cs } IN IF k = {} THEN Len(t) + 1 ELSE CHOOSE x \in k : \A y \in k : x <= y
Find(t, p, c) == LET k == { x \in p..Len(t) : t[x] = c } IN IF k = {} THEN Len(t) + 1 ELSE CHOOSE x \in k : \A y \in k : x <= y
At(t, p) == IF p <= Len(t) THEN t[p] ELSE 0
(* value of the digits t[p..q-1] with sign; 32-bit range; big: outside *)
RECURSIVE Acc(_, _, _, _, _)
Acc(t, p, q, neg, v) == IF p >= q THEN v ELSE LET d == t[p] - 48 IN Acc(t, p + 1, q, neg, IF neg THEN v * 10 - d ELSE v * 10 + d)
MaxDigits == << 2, 1, 4, 7, 4, 8, 3, 6, 4, 7 >>
RECURSIVE LexGreater(_, _, _, _)
LexGreater(t, p, k, lim) == IF k > 10 THEN FALSE ELSE LET d == t[p + k - 1] - 48 IN IF d > lim[k] THEN TRUE ELSE IF d < lim[k] THEN FALSE ELSE LexGreater(t, p, k + 1, lim)
Num(t, p, q, neg) ==
    LET z == Skip(t, p, {48})
        s == IF z > q THEN q ELSE z
        n == q - s
        lim == IF neg THEN [MaxDigits EXCEPT ![10] = 8] ELSE MaxDigits
        big == n > 10 \/ (n = 10 /\ LexGreater(t, s, 1, lim))
    IN [ok |-> q > p /\ ~big, v |-> IF q > p /\ ~big THEN Acc(t, s, q, neg, 0) ELSE 0]
(* optional sign, blanks (if allowed), digits, from position p: [ok, v, p, gap] *)
SInt(t, p, ws) ==
    LET sgn == At(t, p) \in {43, 45}
        neg == At(t, p) = 45
        p1 == IF sgn THEN Skip(t, p + 1, ws) ELSE p
        q == Skip(t, p1, Digits)
        n == Num(t, p1, q, neg)
    IN [ok |-> n.ok, v |-> n.v, p |-> q, gap |-> sgn /\ p1 > p + 1]
No == {}
(* ---- coordinates ---- *)
RECURSIVE Coord(_, _, _)
Coord(t, p, m) ==
    IF p > Len(t) THEN [ok |-> TRUE, v |-> m]
    ELSE LET p1 == Skip(t, p, Seps)
             d == DimOf(At(t, p1))
             n == SInt(t, Skip(t, p1 + 1, Blanks), Blanks)
         IN IF d = 0 \/ ~n.ok \/ d \in { x[1] : x \in m } THEN [ok |-> FALSE, v |-> {}] ELSE Coord(t, Skip(t, n.p, Seps), m \cup { << d, n.v >> })
(* ---- bounds: dim start ':' size, white space between ---- *)
RECURSIVE Bounds(_, _, _, _)
Bounds(t, p, m, lax) ==
    IF p > Len(t) THEN [ok |-> m # {}, v |-> m, lax |-> lax]
    ELSE LET d == DimOf(t[p])
             a == SInt(t, p + 1, No)
             b == SInt(t, a.p + 1, No)
             q == Skip(t, b.p, Whites)
         IN IF d = 0 \/ ~a.ok \/ At(t, a.p) # 58 \/ ~b.ok \/ b.v = 0 \/ d \in { x[1] : x \in m } THEN [ok |-> FALSE, v |-> {}, lax |-> lax]
            ELSE Bounds(t, q, m \cup { << d, a.v, b.v >> }, lax \/ b.v < 0)
ParseBounds(t) == LET p == Skip(t, 1, Whites) r == Bounds(t, p, {}, p > 1) IN r
(* ---- index sets ---- *)
IsInf(t, p) == At(t, p) = 105 /\ At(t, p + 1) = 110 /\ At(t, p + 2) = 102
Lim(t, p) ==
    LET sgn == At(t, p) \in {43, 45}
        p1 == IF sgn THEN Skip(t, p + 1, Whites) ELSE p
        n == SInt(t, p, Whites)
    IN IF IsInf(t, p1) THEN [ok |-> TRUE, v |-> IF At(t, p) = 45 THEN -2147483647 - 1 ELSE 2147483647, p |-> p1 + 3] ELSE [ok |-> n.ok, v |-> n.v, p |-> n.p]
Part(t) ==
    LET a == Lim(t, 1)
        p1 == Skip(t, a.p, Whites)
        p2 == Skip(t, p1 + 1, Whites)
        b == Lim(t, p2)
    IN IF ~a.ok THEN [ok |-> FALSE, lo |-> 0, hi |-> 0, lax |-> FALSE]
       ELSE IF p1 > Len(t) THEN [ok |-> TRUE, lo |-> a.v, hi |-> a.v, lax |-> FALSE]
       ELSE IF t[p1] # 45 \/ ~b.ok \/ b.p <= Len(t) \/ a.v > b.v THEN [ok |-> FALSE, lo |-> 0, hi |-> 0, lax |-> FALSE]
       ELSE [ok |-> TRUE, lo |-> a.v, hi |-> b.v, lax |-> p2 > p1 + 1]
Trim(t) == LET a == Skip(t, 1, Blanks) b == { k \in 1..Len(t) : ~Blank(t[k]) } IN IF b = {} THEN << >> ELSE SubSeq(t, a, CHOOSE k \in b : \A j \in b : j <= k)
RECURSIVE Parts(_, _)
Parts(t, p) == LET q == Find(t, p, 44) IN << SubSeq(t, p, q - 1) >> \o (IF q > Len(t) THEN << >> ELSE Parts(t, q + 1))
IndexSet(t) ==
    LET ps == Parts(t, 1)
        r == [ k \in 1..Len(ps) |-> Part(Trim(ps[k])) ]
        blank == { k \in 1..Len(ps) : Trim(ps[k]) = << >> }
    IN [ok |-> \A k \in (1..Len(ps)) \ blank : r[k].ok, lax |-> blank # {} \/ \E k \in (1..Len(ps)) \ blank : r[k].lax, iv |-> { << r[k].lo, r[k].hi >> : k \in (1..Len(ps)) \ blank }]
Contains(iv, x) == \E r \in iv : r[1] <= x /\ x <= r[2]
(* ---- compression options: method ':' key=value ; ... ---- *)
Methods == << [n |-> << 85, 78, 67, 79, 77, 80, 82, 69, 83, 83, 69, 68 >>, m |-> 0], [n |-> << 74, 80, 71 >>, m |-> 1], [n |-> << 74, 80, 71, 88, 82 >>, m |-> 2], [n |-> << 90, 83, 84, 68, 48 >>, m |-> 3], [n |-> << 90, 83, 84, 68, 49 >>, m |-> 4] >>
KeyLevel == << 69, 88, 80, 76, 73, 67, 73, 84, 76, 69, 86, 69, 76 >>
KeyPre == << 80, 82, 69, 80, 82, 79, 67, 69, 83, 83 >>
ValHiLo == << 72, 73, 76, 79, 66, 89, 84, 69, 85, 78, 80, 65, 67, 75 >>
ValChars == Alnums \cup {43, 45, 46}
(* pairs up to the end; o = [lv |-> <<>> or <<level>>, hl] *)
RECURSIVE Pairs(_, _, _)
Pairs(t, p, o) ==
    LET k0 == Skip(t, p, Whites)
        k1 == Skip(t, k0, Alnums)
        eq == Skip(t, k1, Whites)
        v0 == Skip(t, eq + 1, Whites)
        v1 == Skip(t, v0, ValChars)
        en == Skip(t, v1, Whites)
        key == UpperAll(SubSeq(t, k0, k1 - 1))
        n == SInt(t, v0, No)
        lvOk == n.ok /\ n.p = v1
        o1 == IF key = KeyLevel THEN [o EXCEPT !.lv = << n.v >>] ELSE IF key = KeyPre /\ UpperAll(SubSeq(t, v0, v1 - 1)) = ValHiLo THEN [o EXCEPT !.hl = TRUE] ELSE o
    IN IF k0 > Len(t) THEN [ok |-> TRUE, o |-> o]
       ELSE IF At(t, eq) # 61 \/ (key = KeyLevel /\ ~lvOk) THEN [ok |-> FALSE, o |-> o]
       ELSE IF en > Len(t) THEN [ok |-> TRUE, o |-> o1]
       ELSE IF t[en] # 59 THEN [ok |-> FALSE, o |-> o] ELSE Pairs(t, en + 1, o1)
Comp(t) ==
    LET m0 == Skip(t, 1, Whites)
        m1 == Skip(t, m0, Alnums)
        c == Skip(t, m1, Whites)
        nm == UpperAll(SubSeq(t, m0, m1 - 1))
        ms == { k \in 1..Len(Methods) : Methods[k].n = nm }
        ps == Pairs(t, c + 1, [lv |-> << >>, hl |-> FALSE])
    IN IF ms = {} \/ At(t, c) # 58 \/ ~ps.ok THEN [ok |-> FALSE, m |-> -1, lv |-> << >>, hl |-> FALSE]
       ELSE [ok |-> TRUE, m |-> Methods[CHOOSE k \in ms : TRUE].m, lv |-> ps.o.lv, hl |-> ps.o.hl]
(* ---- XSD date and time: [-]YYYY-MM-DDThh:mm:ss[.f][Z|(+|-)hh:mm] ---- *)
TwoD(t, p) == IF Digit(At(t, p)) /\ Digit(At(t, p + 1)) THEN (10 * (t[p] - 48)) + (t[p + 1] - 48) ELSE -1
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DateOk(y, mo, d, h, mi, s) == mo \in 1..12 /\ d \in 1..DaysIn(y, mo) /\ h \in 0..23 /\ mi \in 0..59 /\ s \in 0..60 /\ y > -10000 /\ y < 10000
Bad == [ok |-> FALSE]
Date(t0) ==
    LET t == Trim(t0)
        neg == At(t, 1) = 45
        y0 == IF neg THEN 2 ELSE 1
        y1 == Skip(t, y0, Digits)
        n == y1 - y0
        yr == Num(t, y0, y1, neg)
        mo == TwoD(t, y1 + 1)  d == TwoD(t, y1 + 4)  h == TwoD(t, y1 + 7)  mi == TwoD(t, y1 + 10)  s == TwoD(t, y1 + 13)
        f0 == y1 + 15
        f1 == IF At(t, f0) = 46 THEN Skip(t, f0 + 1, Digits) ELSE f0
        c == At(t, f1)
        zh == TwoD(t, f1 + 1)  zm == TwoD(t, f1 + 4)
        zone == IF f1 > Len(t) THEN << >> ELSE IF c = 90 /\ f1 = Len(t) THEN << "Z" >>
                ELSE IF c \in {43, 45} /\ f1 + 5 = Len(t) /\ zh \in 0..23 /\ zm \in 0..59 /\ t[f1 + 3] = 58 THEN << "O", IF c = 45 THEN -zh ELSE zh, zm >> ELSE << "?" >>
    IN IF n < 4 \/ (n > 4 /\ t[y0] = 48) \/ ~yr.ok \/ At(t, y1) # 45 \/ At(t, y1 + 3) # 45 \/ At(t, y1 + 6) # 84 \/ At(t, y1 + 9) # 58 \/ At(t, y1 + 12) # 58
          \/ ~DateOk(yr.v, mo, d, h, mi, s) \/ (At(t, f0) = 46 /\ f1 = f0 + 1) \/ zone = << "?" >> THEN Bad
       ELSE [ok |-> TRUE, v |-> << yr.v, mo, d, h, mi, s >>, zone |-> zone]
(* ---- colours: #AARRGGBB ---- *)
HexOf(c) == IF Digit(c) THEN c - 48 ELSE IF Upper(c) >= 65 /\ Upper(c) <= 70 THEN Upper(c) - 55 ELSE -1
Colour(t0) == LET t == Trim(t0) IN
    IF Len(t) = 9 /\ t[1] = 35 /\ \A k \in 2..9 : HexOf(t[k]) >= 0 THEN [ok |-> TRUE, v |-> << 16 * HexOf(t[4]) + HexOf(t[5]), 16 * HexOf(t[6]) + HexOf(t[7]), 16 * HexOf(t[8]) + HexOf(t[9]) >>] ELSE [ok |-> FALSE, v |-> << >>]
(* ---- ordering of coordinates (sets of <<dim, value>>) ---- *)
Dims(m) == { x[1] : x \in m }
ValOf(m, d) == (CHOOSE x \in m : x[1] = d)[2]
Cmp(a, b) == LET df == { d \in 1..9 : (d \in Dims(a)) # (d \in Dims(b)) \/ (d \in Dims(a) /\ d \in Dims(b) /\ ValOf(a, d) # ValOf(b, d)) } IN
    IF df = {} THEN 0 ELSE LET d == CHOOSE x \in df : \A y \in df : x <= y IN
    IF d \in Dims(a) /\ d \notin Dims(b) THEN 1 ELSE IF d \notin Dims(a) THEN -1 ELSE IF ValOf(a, d) < ValOf(b, d) THEN -1 ELSE 1
(* ---- all coordinates within bounds (sets of <<dim, start, size>>) ---- *)
IvOf(m, d) == (CHOOSE x \in m : x[1] = d)
Inside(m, c) == Dims(m) = Dims(c) /\ \A d \in Dims(m) : ValOf(c, d) >= IvOf(m, d)[2] /\ ValOf(c, d) < IvOf(m, d)[2] + IvOf(m, d)[3]
RECURSIVE Volume(_)
Volume(m) == IF m = {} THEN 1 ELSE LET x == CHOOSE y \in m : TRUE IN x[3] * Volume(m \ {x})
=============================================================================
