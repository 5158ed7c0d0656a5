------------------------------- MODULE Pixels -------------------------------
(* Pixel values of the test bitmaps, conversions between pixel types, masks.   *)
(* Pixel types: 0 Gray8, 1 Gray16, 2 Gray32Float, 3 Bgr24, 4 Bgr48, 9 Bgra32.  *)
(* Recorded float components are multiplied by 4096.                           *)
EXTENDS Integers, Sequences
NC(pt) == CASE pt \in {0, 1, 2} -> 1 [] pt \in {3, 4} -> 3 [] OTHER -> 4
Wide(pt) == pt \in {1, 2, 4}
Val(pt, s, x, y, k) == IF Wide(pt) THEN (s * 311 + x * 71 + y * 131 + k * 17) % 65521 ELSE (s * 31 + x * 7 + y * 13 + k * 5) % 251
Px(pt, s, x, y) == [ k \in 1..NC(pt) |-> Val(pt, s, x, y, k - 1) ]
Abs(v) == IF v < 0 THEN -v ELSE v
Sum3(c) == c[1] + c[2] + c[3]
Third(obs, sum) == Abs(obs * 3 - sum * 4096) <= 200          \* float arithmetic: within single precision
Supported(s, d) == (s \in {0, 1, 3, 4} /\ d \in {0, 1, 2, 3, 4}) \/ (s = 2 /\ d = 2)
(* c: source components, o: observed destination components *)
ConvOk(s, d, c, o) ==
    CASE s = d /\ s # 2 -> o = c
      [] s = 2 /\ d = 2 -> o[1] = c[1] * 4096
      [] s \in {0, 1} /\ d = 2 -> o[1] = c[1] * 4096
      [] s = 0 /\ d = 1 -> o = c
      [] s = 0 /\ d \in {3, 4} -> o = << c[1], c[1], c[1] >>
      [] s = 1 /\ d = 0 -> o[1] = c[1] \div 256
      [] s = 1 /\ d = 3 -> o = LET v == c[1] \div 256 IN << v, v, v >>
      [] s = 1 /\ d = 4 -> o = << c[1], c[1], c[1] >>
      [] s = 3 /\ d \in {0, 1} -> o[1] = (Sum3(c) + 1) \div 3
      [] s = 3 /\ d = 2 -> Third(o[1], Sum3(c))
      [] s = 3 /\ d = 4 -> o = c
      [] s = 4 /\ d = 0 -> o[1] = (Sum3(c) \div 3) \div 256
      [] s = 4 /\ d = 1 -> o[1] = Sum3(c) \div 3
      [] s = 4 /\ d = 2 -> Third(o[1], Sum3(c))
      [] s = 4 /\ d = 3 -> o = << c[1] \div 256, c[2] \div 256, c[3] \div 256 >>
      [] OTHER -> FALSE
MaskBit(ms, x, y) == IF ms < 0 THEN ms = -1 ELSE (ms + 3 * x + 2 * y + x * y + x \div 8) % 5 # 0
Clamp(v, m) == IF v < 0 THEN 0 ELSE IF v > m THEN m ELSE v
(* background colour <<b, g, r>> with integer components *)
BgOk(pt, bg, o) ==
    CASE pt = 0 -> o[1] = Clamp(85 * Sum3(bg), 255)
      [] pt = 1 -> o[1] = Clamp(21845 * Sum3(bg), 65535)
      [] pt = 2 -> Third(o[1], Sum3(bg))
      [] pt = 3 -> o = [ k \in 1..3 |-> Clamp(255 * bg[k], 255) ]
      [] pt = 4 -> o = [ k \in 1..3 |-> Clamp(65535 * bg[k], 65535) ]
      [] OTHER -> o = << Clamp(255 * bg[1], 255), Clamp(255 * bg[2], 255), Clamp(255 * bg[3], 255), 255 >>
Obs(px, pt, w, x, y) == LET n == NC(pt) b == (y * w + x) * n IN [ k \in 1..n |-> px[b + k] ]
=============================================================================
