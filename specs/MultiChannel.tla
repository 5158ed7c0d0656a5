---------------------------- MODULE MultiChannel ----------------------------
(* Composition of several channels to one colour image.                        *)
(* A component is a set of allowed values: a value whose exact rational is so  *)
(* close to a rounding boundary that single precision may fall on either side  *)
(* allows both neighbours; otherwise the set is a singleton.                   *)
EXTENDS Integers, Sequences, FiniteSets
Comps(pt) == CASE pt \in {0, 1, 2} -> 1 [] pt \in {3, 4} -> 3 [] OTHER -> 4
Max(pt) == IF pt \in {1, 4} THEN 65535 ELSE 255
Rnd(num, den) == LET q == (2 * num + den) \div (2 * den) m == (2 * num + den) % (2 * den) eps == (2 * den) \div 1000 IN
    {q} \cup (IF m <= eps /\ q > 0 THEN {q - 1} ELSE {}) \cup (IF m >= 2 * den - eps THEN {q + 1} ELSE {})
CeilDiv(a, b) == -((-a) \div b)
Lim(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
(* black and white point are given in 1/256 of the range *)
Bp(c) == CeilDiv(Lim(c.bp, 0, 256) * Max(c.pt), 256)
Wp(c) == (Lim(c.wp, 0, 256) * Max(c.pt)) \div 256
UsesLut(c) == "lut" \in DOMAIN c /\ c.ln # 0
UsesBw(c) == ~UsesLut(c) /\ ~(c.bp <= 0 /\ c.wp >= 256)
Lut(c, v) == (c.lut[1] * v + c.lut[2] + c.lut[3] * (v \div 7)) % 256
Supported(c) == c.pt \in {0, 1, 3, 4} \/ (c.pt = 9 /\ ~UsesLut(c) /\ ~UsesBw(c))
(* scaled between black and white point, maximal value m *)
Bw(c, v, m) == IF v <= Bp(c) THEN {0} ELSE IF v >= Wp(c) THEN {m} ELSE Rnd((v - Bp(c)) * m, Wp(c) - Bp(c))
Plain(c, v) == IF UsesLut(c) THEN {Lut(c, v)} ELSE IF UsesBw(c) THEN Bw(c, v, 255) ELSE {IF Max(c.pt) = 65535 THEN v \div 256 ELSE v}
Sum3(p) == p[1] + p[2] + p[3]
Tinted(c, p, col) ==
    LET gray == Comps(c.pt) = 1 IN
    IF UsesLut(c) THEN (IF gray THEN Rnd(Lut(c, p[1]) * col, 255) ELSE Rnd((Lut(c, p[1]) + Lut(c, p[2]) + Lut(c, p[3])) * col, 765))
    ELSE IF UsesBw(c) THEN Bw(c, IF gray THEN p[1] ELSE (Sum3(p) + 1) \div 3, col)
    ELSE IF gray THEN Rnd(p[1] * col, Max(c.pt)) ELSE Rnd(Sum3(p) * col, 3 * Max(c.pt))
(* contribution of channel c with pixel p to component k *)
Part(c, p, k) == IF c.tint THEN Tinted(c, p, c.col[k]) ELSE Plain(c, IF Comps(c.pt) = 1 THEN p[1] ELSE p[k])
RECURSIVE SumW(_, _)
SumW(ch, n) == IF n = 0 THEN 0 ELSE ch[n].wt + SumW(ch, n - 1)
Weighted(ch) == (\A k \in 1..Len(ch) : ch[k].wt >= 0 /\ "nan" \notin DOMAIN ch[k]) /\ SumW(ch, Len(ch)) > 0 /\ \E k \in 1..Len(ch) : ch[k].wt # ch[1].wt
Scaled(ch, j, v) == IF Weighted(ch) THEN UNION { Rnd(x * ch[j].wt * Len(ch), SumW(ch, Len(ch))) : x \in v } ELSE v
Pix(c, q, w) == LET n == Comps(c.pt) b == (q[2] * w + q[1]) * n IN [ k \in 1..n |-> c.px[b + k] ]
RECURSIVE Total(_, _, _, _, _)
Total(ch, j, q, w, k) == IF j = 0 THEN {0} ELSE { (IF x + y > 255 THEN 255 ELSE x + y) : x \in Scaled(ch, j, Part(ch[j], Pix(ch[j], q, w), k)), y \in Total(ch, j - 1, q, w, k) }
=============================================================================
