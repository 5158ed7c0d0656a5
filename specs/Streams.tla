------------------------------ MODULE Streams ------------------------------
(* Files as byte sequences, and streams on them.  A position is <<hi, lo>> = hi * 2^20 + lo with 0 <= lo < 2^20, so that
   positions beyond 2^32 stay within TLC's integers.  f = [ex, len, b]: b maps the positions whose byte is determined to it
   (what lies in gaps between writes is not determined). *)
EXTENDS Integers, Sequences, FiniteSets
U == 1048576
Norm(p, k) == << p[1] + ((p[2] + k) \div U), (p[2] + k) % U >>
Lt(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
MaxP(p, q) == IF Lt(p, q) THEN q ELSE p
\* q - p for q >= p, capped
Diff(p, q) == IF q[1] - p[1] > 1000 THEN 1000 * U ELSE (q[1] - p[1]) * U + (q[2] - p[2])
Zero == << 0, 0 >>
NoFile == [ex |-> FALSE, len |-> Zero, b |-> << >>]
Empty == [ex |-> TRUE, len |-> Zero, b |-> << >>]
\* number of bytes a read of size n at p delivers
Avail(len, p, n) == IF ~Lt(p, len) THEN 0 ELSE LET d == Diff(p, len) IN IF d < n THEN d ELSE n
Write(f, p, d) ==
    IF d = << >> THEN f
    ELSE LET pos == { Norm(p, k - 1) : k \in 1..Len(d) }
             at(q) == d[Diff(p, q) + 1]
         IN [ex |-> TRUE, len |-> MaxP(f.len, Norm(p, Len(d))),
             b |-> [q \in DOMAIN f.b \cup pos |-> IF q \in pos THEN at(q) ELSE f.b[q]]]
\* the delivered bytes d agree with the file from p on
Agrees(f, p, d) == \A k \in 1..Len(d) : LET q == Norm(p, k - 1) IN q \in DOMAIN f.b => f.b[q] = d[k]
Prefix(d, n) == SubSeq(d, 1, n)
=============================================================================
