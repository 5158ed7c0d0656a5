------------------------------- MODULE Chunk -------------------------------
(* Tags in the metadata of a subblock, and the chunk container that may be     *)
(* stored in its attachment: a sequence of (16 bytes identity, 4 bytes length, *)
(* payload), at least 21 bytes long; fewer than 21 left-over bytes are ignored.*)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Min(a, b) == IF a < b THEN a ELSE b
(* little-endian 32-bit word at (zero-based) offset o, clamped to 2000000000 *)
U32(b, o) == IF b[o + 4] >= 120 THEN 2000000000 ELSE Min(2000000000, b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3] + 16777216 * b[o + 4])
GuidAt(b, o) == << b[o + 4], b[o + 3], b[o + 2], b[o + 1], b[o + 6], b[o + 5], b[o + 8], b[o + 7] >> \o SubSeq(b, o + 9, o + 16)
MaskGuid == << 203, 227, 234, 103, 91, 252, 73, 43, 161, 106, 236, 227, 120, 3, 20, 72 >>
(* all chunks from offset o on: [ch: sequence of chunks, ok: no corruption]    *)
RECURSIVE ChunksFrom(_, _, _)
ChunksFrom(b, o, ix) ==
    IF Len(b) - o < 21 THEN [ ch |-> << >>, ok |-> TRUE ]
    ELSE LET n == U32(b, o + 16) IN
         IF n > Len(b) - o - 20 THEN [ ch |-> << >>, ok |-> FALSE ]
         ELSE LET t == ChunksFrom(b, o + 20 + n, ix + 1) IN [ t EXCEPT !.ch = << [ ix |-> ix, g |-> GuidAt(b, o), off |-> o + 20, sz |-> n ] >> \o @ ]
Container(b) == IF Len(b) < 21 THEN [ ch |-> << >>, ok |-> FALSE ] ELSE ChunksFrom(b, 0, 0)
(* the enumeration ends when the callback says so (after "stop" chunks)        *)
Delivered(b, stop) == LET c == Container(b).ch IN SubSeq(c, 1, Min(Len(c), stop))
EnumOk(b, stop) == Container(b).ok \/ Len(Container(b).ch) >= stop
(* ---- the valid-pixel mask: first chunk with its identity ---- *)
NoMask == [ ok |-> FALSE ]
Mask(b) == LET c == Container(b).ch m == { k \in 1..Len(c) : c[k].g = MaskGuid } IN
           IF m = {} THEN NoMask
           ELSE LET f == c[CHOOSE k \in m : \A j \in m : k <= j] IN
                IF f.sz < 12 THEN NoMask
                ELSE [ ok |-> TRUE, w |-> U32(b, f.off), h |-> U32(b, f.off + 4), t |-> U32(b, f.off + 8), d |-> SubSeq(b, f.off + 13, f.off + f.sz) ]
Plain(m) == IF ~m.ok THEN NoMask ELSE IF m.t # 0 \/ Len(m.d) < 4 THEN NoMask
            ELSE [ ok |-> TRUE, w |-> m.w, h |-> m.h, st |-> U32(m.d, 0), d |-> SubSeq(m.d, 5, Len(m.d)) ]
Fits(p) == LET need == (p.w + 7) \div 8 n == Len(p.d) IN
    /\ p.w > 0 /\ p.h > 0 /\ p.st >= need /\ need <= n
    /\ (p.h = 1 \/ (p.h - 1 <= n /\ p.st <= n /\ (p.h - 1) * p.st + need <= n))
Bit(v, k) == (v \div (CASE k = 0 -> 128 [] k = 1 -> 64 [] k = 2 -> 32 [] k = 3 -> 16 [] k = 4 -> 8 [] k = 5 -> 4 [] k = 6 -> 2 [] OTHER -> 1)) % 2
BitmapOf(p) == [ q \in 1..(p.w * p.h) |-> LET y == (q - 1) \div p.w x == (q - 1) % p.w IN Bit(p.d[y * p.st + (x \div 8) + 1], x % 8) ]
(* ---- tags ---- *)
Blank(t) == \A k \in 1..Len(t) : t[k] \in {32, 9, 10, 13}
(* the first tag with this name; a tag without text has no value *)
TagIx(x, n) == LET m == { k \in 1..Len(x.tag) : x.tag[k].n = n } IN IF m = {} THEN 0 ELSE CHOOSE k \in m : \A j \in m : k <= j
HasTag(x, n) == x.k = "md" /\ x.tags /\ TagIx(x, n) # 0 /\ ~Blank(x.tag[TagIx(x, n)].v)
TagText(x, n) == x.tag[TagIx(x, n)].v
(* decimal numbers: value in 1/1000; blanks around it are allowed, nothing else *)
Digit(c) == c \in 48..57
RECURSIVE SkipWs(_, _), Digits(_, _)
SkipWs(t, k) == IF k <= Len(t) /\ t[k] \in {32, 9, 10, 13} THEN SkipWs(t, k + 1) ELSE k
Digits(t, k) == IF k <= Len(t) /\ Digit(t[k]) THEN Digits(t, k + 1) ELSE k           \* first position which is no digit
RECURSIVE Val(_, _, _)
Val(t, k, e) == IF e < k THEN 0 ELSE 10 * Val(t, k, e - 1) + t[e] - 48                  \* number in t[k..e]
RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
NotNum == [ ok |-> FALSE, v |-> 0 ]
Number(t) ==
    LET a == SkipWs(t, 1)
        neg == a <= Len(t) /\ t[a] = 45
        b == IF a <= Len(t) /\ t[a] \in {43, 45} THEN a + 1 ELSE a
        c == Digits(t, b)                                  \* integer digits b..c-1
        dot == c <= Len(t) /\ t[c] = 46
        d == IF dot THEN Digits(t, c + 1) ELSE c           \* fraction digits c+1..d-1
        nf == IF dot THEN d - c - 1 ELSE 0
        hasE == d <= Len(t) /\ t[d] \in {69, 101}
        es == IF hasE /\ d + 1 <= Len(t) /\ t[d + 1] \in {43, 45} THEN d + 2 ELSE d + 1
        ee == IF hasE THEN Digits(t, es) ELSE d
        exp == IF hasE /\ ee > es THEN (IF t[d + 1] = 45 THEN -1 ELSE 1) * Val(t, es, ee - 1) ELSE 0
        end == IF hasE /\ ee > es THEN ee ELSE d
        m == Val(t, b, c - 1) * Pow10(nf) + (IF dot THEN Val(t, c + 1, d - 1) ELSE 0)
        x == exp - nf + 3
        abs == IF x >= 0 THEN m * Pow10(x) ELSE m \div Pow10(-x)
    IN IF (c - b) + nf = 0 \/ SkipWs(t, end) <= Len(t) THEN NotNum ELSE [ ok |-> TRUE, v |-> IF neg THEN -abs ELSE abs ]
=============================================================================
