------------------------------ MODULE CziParse ------------------------------
(* The CZI file format as a function from bytes to documents: what a file declares, where the declared
   content lies, and which irregularities each open option refuses. A file is a sequence of bytes. *)
EXTENDS Integers, Sequences, FiniteSets
MaxI == 2147483647
MinI == -2147483647 - 1
Holds(f, o, n) == o >= 0 /\ o <= Len(f) /\ n >= 0 /\ n <= Len(f) - o          \* bytes o..o+n-1 lie in the file
U8(f, o) == f[o + 1]
I32(f, o) == LET h == f[o + 4] IN f[o + 1] + 256 * f[o + 2] + 65536 * f[o + 3] + (IF h < 128 THEN h ELSE h - 256) * 16777216
(* 64-bit values: negative ones are -1, those above 2^31-1 are MaxI (no file here is that long) *)
I64(f, o) == LET h == I32(f, o + 4) l == I32(f, o) IN IF h < 0 THEN -1 ELSE IF h > 0 \/ l < 0 THEN MaxI ELSE l
Zero64(f, o) == \A k \in 1..8 : f[o + k] = 0
Ones64(f, o) == \A k \in 1..8 : f[o + k] = 255
Part(f, o, n) == SubSeq(f, o + 1, o + n)
Starts(f, o, m) == \A k \in 1..16 : f[o + k] = (IF k <= Len(m) THEN m[k] ELSE 0)
MFile == << 90, 73, 83, 82, 65, 87, 70, 73, 76, 69 >>
MDir  == << 90, 73, 83, 82, 65, 87, 68, 73, 82, 69, 67, 84, 79, 82, 89 >>
MSub  == << 90, 73, 83, 82, 65, 87, 83, 85, 66, 66, 76, 79, 67, 75 >>
MMeta == << 90, 73, 83, 82, 65, 87, 77, 69, 84, 65, 68, 65, 84, 65 >>
MADir == << 90, 73, 83, 82, 65, 87, 65, 84, 84, 68, 73, 82 >>
MAtt  == << 90, 73, 83, 82, 65, 87, 65, 84, 84, 65, 67, 72 >>
Refused == [ ok |-> FALSE ]
(* ---- the description of a sub-block: a list of dimension entries ---- *)
DimByte == << << 90, "Z" >>, << 67, "C" >>, << 84, "T" >>, << 82, "R" >>, << 83, "S" >>, << 73, "I" >>, << 72, "H" >>, << 86, "V" >>, << 66, "B" >> >>
Upper(b) == IF b >= 97 /\ b <= 122 THEN b - 32 ELSE b
Name(b) == LET u == Upper(b) k == { q \in 1..9 : DimByte[q][1] = u } IN
           IF u = 88 THEN "X" ELSE IF u = 89 THEN "Y" ELSE IF u = 77 THEN "M" ELSE IF k = {} THEN "?" ELSE DimByte[CHOOSE q \in k : TRUE][2]
Dim(f, o, k) == LET d == o + 20 * (k - 1) IN [ n |-> Name(U8(f, d)), start |-> I32(f, d + 4), size |-> I32(f, d + 8), stored |-> I32(f, d + 16) ]
MaxDims == 40
(* d: the sequence of dimension entries; a later entry for the same dimension supersedes an earlier one *)
LastOf(d, n) == { k \in 1..Len(d) : d[k].n = n /\ \A j \in (k + 1)..Len(d) : d[j].n # n }
Get(d, n, fld(_), def) == LET k == LastOf(d, n) IN IF k = {} THEN def ELSE fld(d[CHOOSE q \in k : TRUE])
Describe(d) ==
    LET st(r) == r.start sz(r) == r.size so(r) == r.stored IN
    [ q |-> << Get(d, "X", st, MinI), Get(d, "Y", st, MinI), Get(d, "X", sz, MinI), Get(d, "Y", sz, MinI), Get(d, "X", so, MinI), Get(d, "Y", so, MinI) >>,
      m |-> LET v == Get(d, "M", st, MinI) IN IF v = MinI \/ v = MaxI THEN << >> ELSE << v >>,
      c |-> { << n, Get(d, n, st, 0) >> : n \in { d[k].n : k \in 1..Len(d) } \ {"X", "Y", "M"} } ]
Pyramid(x) == x.q[3] # x.q[5] \/ x.q[4] # x.q[6]
(* which entries the strict mode refuses *)
Irregular(d, igm) ==
    LET x == Describe(d) names == { d[k].n : k \in 1..Len(d) } IN
    \/ "X" \notin names \/ "Y" \notin names
    \/ \E k \in 1..Len(d) : d[k].n \notin {"X", "Y", "M"} /\ (d[k].size # 1 \/ d[k].stored # 1)
    \/ \E k \in 1..Len(d) : d[k].n = "M" /\ d[k].size # 1 /\ (~igm \/ ~Pyramid(x))
(* "DV" description at o, not to extend beyond e *)
ReadDV(f, o, e) ==
    IF o + 32 > e \/ ~Holds(f, o, 32) THEN Refused
    ELSE LET n == I32(f, o + 28) IN
         IF U8(f, o) # 68 \/ U8(f, o + 1) # 86 \/ n < 0 \/ n > MaxDims \/ ~Holds(f, o, 32 + 20 * n) \/ o + 32 + 20 * n > e THEN Refused
         ELSE LET d == [ k \in 1..n |-> Dim(f, o + 32, k) ] IN
              IF \E k \in 1..n : d[k].n = "?" THEN Refused
              ELSE [ ok |-> TRUE, len |-> 32 + 20 * n, d |-> d, x |-> Describe(d), px |-> I32(f, o + 2), pos |-> I64(f, o + 6), cm |-> I32(f, o + 18), py |-> U8(f, o + 22) ]
(* ---- the segments ---- *)
Header(f) == IF ~Holds(f, 0, 544) \/ ~Starts(f, 0, MFile) THEN Refused
             ELSE [ ok |-> TRUE, dir |-> I64(f, 32 + 52), meta |-> I64(f, 32 + 60), att |-> I64(f, 32 + 72), nometa |-> Zero64(f, 32 + 60) \/ Ones64(f, 32 + 60), metazero |-> Zero64(f, 32 + 60), noatt |-> Zero64(f, 32 + 72) ]
RECURSIVE Entries(_, _, _, _, _)
Entries(f, o, e, n, acc) == IF n <= 0 THEN [ ok |-> TRUE, es |-> acc ] ELSE LET r == ReadDV(f, o, e) IN IF ~r.ok THEN Refused ELSE Entries(f, o + r.len, e, n - 1, Append(acc, r))
Directory(f, p) ==
    IF ~Holds(f, p, 160) \/ ~Starts(f, p, MDir) THEN Refused
    ELSE LET used == I64(f, p + 24) size == IF Zero64(f, p + 24) THEN I64(f, p + 16) ELSE used IN
         IF size < 128 \/ ~Holds(f, p + 160, size - 128) THEN Refused
         ELSE Entries(f, p + 160, p + 32 + size, I32(f, p + 32), << >>)
Cut(b) == LET z == { k \in 1..Len(b) : b[k] = 0 } IN IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE k \in z : \A j \in z : k <= j) - 1)
AttEntry(f, o) == [ s |-> U8(f, o) = 65 /\ U8(f, o + 1) = 49, pos |-> I64(f, o + 12), g |-> Part(f, o + 24, 16), t |-> Cut(Part(f, o + 40, 8)), n |-> Cut(Part(f, o + 48, 80)) ]
AttDirectory(f, h) ==
    IF h.noatt THEN [ ok |-> TRUE, as |-> << >> ]
    ELSE IF ~Holds(f, h.att, 288) \/ ~Starts(f, h.att, MADir) THEN Refused
    ELSE LET n == I32(f, h.att + 32) IN
         IF n <= 0 THEN [ ok |-> TRUE, as |-> << >> ]
         ELSE IF n > 10000000 \/ ~Holds(f, h.att + 288, 128 * n) THEN Refused
         ELSE [ ok |-> TRUE, as |-> SelectSeq([ k \in 1..n |-> AttEntry(f, h.att + 288 + 128 * (k - 1)) ], LAMBDA r : r.s) ]
(* what opening yields; strict: the option that demands regular entries *)
Open(f, strict, igm) ==
    LET h == Header(f) IN IF ~h.ok THEN Refused
    ELSE LET d == Directory(f, h.dir) IN IF ~d.ok THEN Refused
    ELSE IF strict /\ \E k \in 1..Len(d.es) : Irregular(d.es[k].d, igm) THEN Refused
    ELSE LET a == AttDirectory(f, h) IN IF ~a.ok THEN Refused ELSE [ ok |-> TRUE, es |-> d.es, as |-> a.as, h |-> h ]
(* a sub-block segment *)
SubBlock(f, p) ==
    IF ~Holds(f, p, 288) \/ ~Starts(f, p, MSub) THEN Refused
    ELSE LET m == I32(f, p + 32) a == I32(f, p + 36) s == I64(f, p + 40)
             de == U8(f, p + 48) = 68 /\ U8(f, p + 49) = 69
             r == IF de THEN [ ok |-> TRUE, len |-> 0 ] ELSE ReadDV(f, p + 48, Len(f)) IN
         IF ~r.ok \/ m < 0 \/ a < 0 \/ s < 0 THEN Refused
         ELSE LET b == p + 32 + (IF 16 + r.len > 256 THEN 16 + r.len ELSE 256) IN
              (* a part of size zero claims no place in the file *)
              IF (m > 0 /\ ~Holds(f, b, m)) \/ (s > 0 /\ ~Holds(f, b + m, s)) \/ (a > 0 /\ (s > Len(f) \/ ~Holds(f, b + m + s, a))) THEN Refused
              ELSE [ ok |-> TRUE, de |-> de, r |-> r, me |-> Part(f, b, m), da |-> Part(f, b + m, s), at |-> IF a = 0 THEN << >> ELSE Part(f, b + m + s, a) ]
Agree(x, y) == x.px = y.px /\ x.cm = y.cm /\ x.x = y.x
Attachment(f, p) ==
    IF ~Holds(f, p, 288) \/ ~Starts(f, p, MAtt) THEN Refused
    ELSE LET s == I64(f, p + 32) IN IF s < 0 \/ (s > 0 /\ ~Holds(f, p + 288, s)) THEN Refused ELSE [ ok |-> TRUE, by |-> Part(f, p + 288, s) ]
Metadata(f, p) ==
    IF ~Holds(f, p, 288) \/ ~Starts(f, p, MMeta) THEN Refused
    ELSE LET x == I32(f, p + 32) a == I32(f, p + 36) IN
         IF x < 0 \/ a < 0 \/ (x > 0 /\ ~Holds(f, p + 288, x)) \/ (a > 0 /\ ~Holds(f, p + 288 + x, a)) THEN Refused
         ELSE [ ok |-> TRUE, xml |-> Part(f, p + 288, x), at |-> IF a = 0 THEN << >> ELSE Part(f, p + 288 + x, a) ]
(* what is reported of raw values *)
PixelType(v) == IF v \in {0, 1, 2, 3, 4, 8, 9, 10, 11, 12, 13} THEN v ELSE 255
PyramidType(v) == IF v \in {0, 1, 2} THEN v ELSE 255
BytesPerPel(pt) == CASE pt = 0 -> 1 [] pt = 1 -> 2 [] pt = 2 -> 4 [] pt = 3 -> 3 [] pt = 4 -> 6 [] pt = 8 -> 12 [] pt = 9 -> 4 [] pt = 10 -> 16 [] pt = 11 -> 24 [] pt = 12 -> 4 [] pt = 13 -> 8 [] OTHER -> 0
=============================================================================
