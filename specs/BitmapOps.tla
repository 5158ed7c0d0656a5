----------------------------- MODULE BitmapOps ------------------------------
(* A colour bitmap and a bit mask as functions from coordinates, and what the  *)
(* bitmap operations do to them: the pixel-wise definition of every operation. *)
EXTENDS Pixels, FiniteSets
Pow2(n) == << 1, 2, 4, 8, 16, 32, 64, 128 >>[n + 1]
RowBytes(w) == (w + 7) \div 8
(* bit x,y of a mask held as rows of bytes, most significant bit first *)
Bit(bits, w, x, y) == (bits[y * RowBytes(w) + x \div 8 + 1] \div Pow2(7 - (x % 8))) % 2 = 1
In(x, y, w, h) == x >= 0 /\ y >= 0 /\ x < w /\ y < h
InRect(x, y, r) == x >= r[1] /\ y >= r[2] /\ x < r[1] + r[3] /\ y < r[2] + r[4]
(* the destination bit of a halved mask: all source bits within distance n (those inside the mask) are set *)
DecBit(bits, w, h, n, x, y) == \A u \in (2 * x - n)..(2 * x + n), v \in (2 * y - n)..(2 * y + n) : In(u, v, w, h) => Bit(bits, w, u, v)
(* nearest source coordinate of destination coordinate x; everything in quarters of a pixel; either neighbour at a tie *)
Near(x, rs, rw, rd, rdw, sw) ==
    LET num == (4 * x - rd) * rw + rs * rdw
        den == 4 * rdw
        m == num \div den
        c == { n \in (m - 1)..(m + 2) : LET df == 2 * (n * den - num) IN df <= den /\ -df <= den }
    IN { Clamp(n, sw - 1) : n \in c }
(* destination coordinates that a resize has to set / may set *)
MustSet(x, rs, rw, rd, rdw, sw) == 4 * x >= rd /\ 4 * x < rd + rdw /\ (4 * x - rd) * rw + rs * rdw >= 0 /\ (4 * x - rd) * rw + rs * rdw <= 4 * (sw - 1) * rdw
MaySet(x, rs, rw, rd, rdw, sw) == 4 * x > rd - 4 /\ 4 * x < rd + rdw + 4 /\ (4 * x - rd) * rw + rs * rdw >= 0 /\ (4 * (x - 1) - rd) * rw + rs * rdw < 4 * (sw - 1) * rdw
(* fill colour in quarters, <<b, g, r>> *)
Rounds(o, v4, m) == IF v4 <= 0 THEN o = 0 ELSE IF v4 >= 4 * m THEN o = m ELSE Abs(4 * o - v4) <= 2
FillOk(pt, bg, o) ==
    CASE pt = 0 -> Rounds(o[1], 85 * Sum3(bg), 255)
      [] pt = 1 -> Rounds(o[1], 21845 * Sum3(bg), 65535)
      [] pt = 2 -> Abs(o[1] * 12 - Sum3(bg) * 4096) <= 24
      [] pt = 3 -> \A k \in 1..3 : Rounds(o[k], 255 * bg[k], 255)
      [] pt = 4 -> \A k \in 1..3 : Rounds(o[k], 65535 * bg[k], 65535)
      [] OTHER -> o[4] = 255 /\ \A k \in 1..3 : Rounds(o[k], 255 * bg[k], 255)
=============================================================================
