------------------------------- MODULE Codec -------------------------------
(* Stored pixel data as byte sequences: low/high byte packing, and what a      *)
(* decoder must make of stored data that is shorter or longer than the         *)
(* declared bitmap ("resolution protocol": fill with zeroes / discard).        *)
EXTENDS Pixels
CompBytes(pt) == IF pt \in {1, 4} THEN 2 ELSE IF pt = 2 THEN 4 ELSE 1
BytesPerPel(pt) == NC(pt) * CompBytes(pt)
(* packed form of a sequence of 16-bit words: all low bytes, then all high bytes *)
PackLoHi(b) == LET m == Len(b) \div 2 IN [ k \in 1..(2 * m) |-> IF k <= m THEN b[2 * k - 1] ELSE b[2 * (k - m)] ]
UnpackLoHi(b) == LET m == Len(b) \div 2 IN [ k \in 1..(2 * m) |-> IF k % 2 = 1 THEN b[(k + 1) \div 2] ELSE b[m + k \div 2] ]
(* resolution protocol *)
Fit(b, n) == [ k \in 1..n |-> IF k <= Len(b) THEN b[k] ELSE 0 ]
RawByte(s, k) == (s * 31 + k * 7 + (k \div 13) * 5) % 256
Raw(s, n) == [ k \in 1..n |-> RawByte(s, k - 1) ]
(* zstd1 header: <<1>>, or <<3, 1, flags>> with bit 0 of flags = low/high byte packing *)
HdrOk(h) == h = << 1 >> \/ (Len(h) = 3 /\ h[1] = 3 /\ h[2] = 1)
HdrPacked(h) == Len(h) = 3 /\ h[3] % 2 = 1
=============================================================================
