------------------------------ MODULE Display ------------------------------
(* Look-up tables, splines and display settings.                               *)
EXTENDS Integers, Sequences, FiniteSets
Abs(v) == IF v < 0 THEN -v ELSE v
Lim(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
(* black and white point are given in 1/1024; index of the first element not   *)
(* below the black point, and of the first one above the white point            *)
Low(n, bp) == Lim(IF bp < 0 THEN 0 ELSE (n * bp) \div 1024, 0, n)
High(n, bp, wp) == LET h == Lim(IF wp < 0 THEN 0 ELSE (n * wp) \div 1024, 0, n) IN IF h < Low(n, bp) THEN Low(n, bp) ELSE h
(* is v the value of the gamma curve at k of d steps (gm: gamma times 100)?     *)
GammaOk(v, k, d, gm, mx) ==
    CASE k = 0 -> v = 0
      [] k = d -> v >= mx - 1
      [] gm = 100 -> Abs(v - ((k * mx) \div d)) <= 1
      [] gm = 200 -> Abs(v - ((k * k * mx) \div (d * d))) <= 1
      [] gm = 50 /\ mx = 255 /\ d <= 120 -> LET q(x) == (14 * x + 255) * (14 * x + 255) * d t == (224 * k + d) * 65025 IN (v <= 1 \/ q(v - 1) <= t) /\ (v >= 254 \/ q(v + 2) >= t)
      [] gm > 100 -> v <= ((k * mx) \div d) + 1            \* below the straight line
      [] OTHER -> v + 1 >= (k * mx) \div d                  \* above the straight line
(* ---- splines through (0,0), the control points (in 1/1000), (1,1) ---- *)
Knots(pts) == << << 0, 0 >> >> \o pts \o << << 1000, 1000 >> >>
Increasing(pts) == LET k == Knots(pts) IN \A j \in 1..(Len(k) - 1) : k[j][1] < k[j + 1][1]
Interpolates(pts, p) == LET k == Knots(pts) IN
    /\ Len(p) = Len(k) - 1
    /\ \A j \in 1..Len(p) : Abs(p[j][1] - 100 * k[j][1]) <= 1 /\ Abs(p[j][2] - 100 * k[j][2]) <= 1 /\ Abs(p[j][3] - 100 * k[j + 1][2]) <= 2
Wide(pts) == LET k == Knots(pts) IN \A j \in 1..(Len(k) - 1) : k[j + 1][1] - k[j][1] >= 10
(* slope and curvature are continuous, the ends are not bent *)
Smooth(p) == /\ \A j \in 1..(Len(p) - 1) : Abs(p[j][5] - p[j + 1][4]) <= 20 + (Abs(p[j][5]) \div 10000) /\ Abs(p[j][7] - p[j + 1][6]) <= 20 + (Abs(p[j][7]) \div 10000)
             /\ p[1][6] = 0 /\ Abs(p[Len(p)][7]) <= 20
(* piece of sample k of m *)
Piece(pts, k, m) == LET n == Knots(pts) s == { j \in 1..(Len(n) - 1) : j = 1 \/ k * 1000 > n[j][1] * (m - 1) } IN CHOOSE j \in s : \A x \in s : x <= j
(* value 255*spline in 1/1000 -> allowed table entries *)
FromVal(w) == IF w < 0 THEN {0} ELSE IF w >= 255000 THEN {255} \cup (IF w <= 255001 THEN {254} ELSE {}) ELSE {w \div 1000} \cup (IF w % 1000 < 2 /\ w >= 1000 THEN {(w \div 1000) - 1} ELSE {}) \cup (IF w % 1000 > 997 THEN {(w \div 1000) + 1} ELSE {})
(* ---- settings: what is reported for the setting q ---- *)
Near(x, y) == Abs(x - y) <= 2 + (Abs(y) \div 100000)
Reports(q, o) ==
    /\ o.en = q.en /\ Near(o.wt, 100 * q.wt) /\ o.tint = q.tint /\ (q.tint => o.col = q.col) /\ Near(o.bp, 100 * q.bp) /\ Near(o.wp, 100 * q.wp) /\ o.mode = q.mode
    /\ (q.mode = 1 => Near(o.gm, 100 * q.gm)) /\ (q.mode # 1 => o.gm = -1) /\ o.sp = (q.mode = 2) /\ o.sd = (q.mode = 2)
    /\ (q.mode = 2 => o.sdn = Len(q.pts) + 1 /\ Len(o.pts) = Len(q.pts) /\ \A k \in 1..Len(q.pts) : o.pts[k] = << 1000 * q.pts[k][1], 1000 * q.pts[k][2] >>)
=============================================================================
