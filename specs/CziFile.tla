------------------------------ MODULE CziFile -------------------------------
(* The file under the document: segments, the header, and the order in which   *)
(* a writer and an in-place editor issue their byte writes.  Every call is a   *)
(* queue of single writes; a crash may fall between any two of them, so an     *)
(* invariant on every state is a statement about every crash point.            *)
(*                                                                             *)
(* One unit of position is 32 bytes; a segment [p, al, k, id, v, full, es]      *)
(* occupies [p, p+al); full = all of its bytes have arrived; es = the entries  *)
(* of a directory segment, each <<position, id, version>>.                     *)
(*                                                                             *)
(* Bug selects a deviation from the design; every value other than "none" must *)
(* be rejected by the invariants (checked, so that they are not vacuous).      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxOps, Ids, Res, Bug
VARIABLES segs, hdr, q, mem, atts, meta, mode, acc, n
vars == << segs, hdr, q, mem, atts, meta, mode, acc, n >>

Sizes == { 1, 3 }                                   \* payload of an item, in units
NoHdr == [ ok |-> FALSE, dir |-> -1, adir |-> -1, meta |-> -1 ]
Hdr0 == [ ok |-> TRUE, dir |-> -1, adir |-> -1, meta |-> -1 ]
SegNeed(sz) == 1 + sz
DirNeed(es) == 1 + Cardinality(es)                  \* one unit per entry
MaxEnd(S) == IF S = {} THEN 1 ELSE CHOOSE x \in { s.p + s.al : s \in S } : \A s \in S : x >= s.p + s.al
At(p) == { s \in segs : s.p = p }
Ghost == [ p |-> -1, al |-> 0, k |-> "none", id |-> 0, v |-> 0, full |-> FALSE, es |-> {} ]
SegOf(p) == IF At(p) = {} THEN Ghost ELSE CHOOSE s \in segs : s.p = p
Mk(p, al, k, id, v, es) == [ p |-> p, al |-> al, k |-> k, id |-> id, v |-> v, full |-> TRUE, es |-> es ]
Put(s) == << [ t |-> "seg", s |-> [ s EXCEPT !.full = FALSE ] ], [ t |-> "seg", s |-> s ] >>
PutHdr(h) == << [ t |-> "hdr", h |-> h ] >>
Del(s) == << [ t |-> "seg", s |-> [ s EXCEPT !.k = "del", !.es = {} ] ] >>

(* what a reader sees in the file as it is now *)
Ents(S) == { << m.p, m.id, m.v >> : m \in S }
DirSeg(p, k) == At(p) # {} /\ SegOf(p).k = k /\ SegOf(p).full
EntOk(en, k) == At(en[1]) # {} /\ SegOf(en[1]).k = k /\ SegOf(en[1]).full /\ SegOf(en[1]).id = en[2] /\ SegOf(en[1]).v = en[3]
ReadSbs == IF ~hdr.ok \/ hdr.dir = -1 THEN {} ELSE IF ~DirSeg(hdr.dir, "dir") THEN {} ELSE { << en[2], en[3] >> : en \in { x \in SegOf(hdr.dir).es : EntOk(x, "sb") } }
ReadAtts == IF ~hdr.ok \/ hdr.adir = -1 THEN {} ELSE IF ~DirSeg(hdr.adir, "adir") THEN {} ELSE { << en[2], en[3] >> : en \in { x \in SegOf(hdr.adir).es : EntOk(x, "att") } }

Init == segs = {} /\ hdr = NoHdr /\ q = << >> /\ mem = {} /\ atts = {} /\ meta = << >> /\ mode = "none" /\ acc = {} /\ n = 0

Idle == q = << >> /\ n < MaxOps
Live == (Ents(mem) \cup Ents(atts))
LiveEnd == LET pos == { en[1] : en \in Live } \cup { hdr.dir, hdr.adir, hdr.meta } \cup (IF meta = << >> THEN {} ELSE { meta[1] })
               res == { s \in segs : s.k = "res" }
               all == { s \in segs : s.p \in pos } \cup (IF mode = "writer" THEN segs ELSE {})
           IN IF Bug = "endofsubblocks" THEN MaxEnd({ s \in segs : s.k = "sb" }) ELSE MaxEnd(all)

(* ---- writer ---- *)
WCreate == /\ mode = "none" /\ Idle /\ n' = n + 1 /\ mode' = "writer"
           /\ \E rd \in Res :
                q' = PutHdr(Hdr0) \o (IF rd = 0 THEN << >> ELSE << [ t |-> "seg", s |-> Mk(1, rd, "res", 0, 0, {}) ] >>)
           /\ UNCHANGED << segs, hdr, mem, atts, meta, acc >>
Add(k, id, sz) == LET s == Mk(LiveEnd, SegNeed(sz), k, id, n, {}) IN
    /\ q' = Put(s)
    /\ IF k = "sb" THEN mem' = mem \cup { [ p |-> s.p, id |-> id, v |-> n ] } /\ UNCHANGED << atts, meta >>
       ELSE IF k = "att" THEN atts' = atts \cup { [ p |-> s.p, id |-> id, v |-> n ] } /\ UNCHANGED << mem, meta >>
       ELSE meta' = << s.p, n >> /\ UNCHANGED << mem, atts >>
    /\ acc' = acc \cup { << k, id, n >> }
Fresh(k, id) == IF k = "sb" THEN ~\E m \in mem : m.id = id ELSE IF k = "att" THEN ~\E m \in atts : m.id = id ELSE meta = << >>
OpAdd == /\ mode \in { "writer", "editor" } /\ Idle /\ n' = n + 1
         /\ \E k \in { "sb", "att", "meta" }, id \in Ids, sz \in Sizes : Fresh(k, id) /\ (k = "meta" => id = 1) /\ Add(k, id, sz)
         /\ UNCHANGED << segs, hdr, mode >>
(* directories go into a reserved or existing segment when they fit, else to the end *)
Place(need, old, end) == IF old # -1 /\ At(old) # {} /\ (SegOf(old).al >= need \/ Bug = "nofit") THEN << old, SegOf(old).al >> ELSE << end, need >>
ResPos == IF \E s \in segs : s.k = "res" THEN (CHOOSE s \in segs : s.k = "res").p ELSE -1
Close == /\ mode \in { "writer", "editor" } /\ q = << >>
         /\ LET de == Ents(mem)  ae == Ents(atts)
                dp == Place(DirNeed(de), IF mode = "writer" THEN ResPos ELSE hdr.dir, LiveEnd)
                e1 == IF dp[1] + dp[2] > LiveEnd THEN dp[1] + dp[2] ELSE LiveEnd
                ap == Place(DirNeed(ae), IF mode = "writer" THEN -1 ELSE hdr.adir, e1)
                h == [ ok |-> TRUE, dir |-> dp[1], adir |-> ap[1], meta |-> IF meta = << >> THEN -1 ELSE meta[1] ]
                dels == (IF hdr.dir # -1 /\ hdr.dir # dp[1] THEN Del(SegOf(hdr.dir)) ELSE << >>) \o (IF hdr.adir # -1 /\ hdr.adir # ap[1] THEN Del(SegOf(hdr.adir)) ELSE << >>)
                dirs == Put(Mk(dp[1], dp[2], "dir", 0, n, de)) \o Put(Mk(ap[1], ap[2], "adir", 0, n, ae))
            IN q' = IF Bug = "headerfirst" THEN PutHdr(h) \o dirs \o dels ELSE dirs \o PutHdr(h) \o dels
         /\ mode' = IF mode = "writer" THEN "wclosed" ELSE "eclosed"
         /\ UNCHANGED << segs, hdr, mem, atts, meta, acc, n >>
(* ---- editor: starts from what a reader finds ---- *)
Edit == /\ mode \in { "wclosed", "eclosed" } /\ q = << >> /\ mode' = "editor" /\ UNCHANGED << segs, hdr, q, mem, atts, meta, acc, n >>
ReplaceIn(S, m, k, sz) ==
    LET old == SegOf(m.p)
        fits == old.al >= SegNeed(sz) \/ Bug = "nofit"
        s == IF fits THEN Mk(m.p, old.al, k, m.id, n, {}) ELSE Mk(LiveEnd, SegNeed(sz), k, m.id, n, {})
    IN /\ q' = Put(IF fits /\ Bug = "nofit" /\ old.al < SegNeed(sz) THEN [ s EXCEPT !.al = SegNeed(sz) ] ELSE s) \o (IF fits THEN << >> ELSE Del(old))
       /\ acc' = acc \cup { << k, m.id, n >> }
OpReplace == /\ mode = "editor" /\ Idle /\ n' = n + 1
             /\ \/ \E m \in mem, sz \in Sizes : ReplaceIn(mem, m, "sb", sz) /\ UNCHANGED << atts, meta >>
                     /\ mem' = (mem \ { m }) \cup { [ p |-> (IF SegOf(m.p).al >= SegNeed(sz) \/ Bug = "nofit" THEN m.p ELSE LiveEnd), id |-> m.id, v |-> n ] }
                \/ \E m \in atts, sz \in Sizes : ReplaceIn(atts, m, "att", sz) /\ UNCHANGED << mem, meta >>
                     /\ atts' = (atts \ { m }) \cup { [ p |-> (IF SegOf(m.p).al >= SegNeed(sz) \/ Bug = "nofit" THEN m.p ELSE LiveEnd), id |-> m.id, v |-> n ] }
             /\ UNCHANGED << segs, hdr, mode >>
OpRemove == /\ mode = "editor" /\ Idle /\ n' = n + 1
            /\ \/ \E m \in mem : q' = Del(SegOf(m.p)) /\ mem' = mem \ { m } /\ UNCHANGED << atts, meta >>
               \/ \E m \in atts : q' = Del(SegOf(m.p)) /\ atts' = atts \ { m } /\ UNCHANGED << mem, meta >>
            /\ UNCHANGED << segs, hdr, mode, acc >>
(* ---- the medium: one write at a time; new bytes replace what lay there ---- *)
Apply(s) == { t \in segs : t.p + t.al <= s.p \/ t.p >= s.p + s.al } \cup { s }
Write == /\ q # << >> /\ q' = Tail(q)
         /\ IF Head(q).t = "hdr" THEN hdr' = Head(q).h /\ segs' = segs ELSE segs' = Apply(Head(q).s) /\ hdr' = hdr
         /\ UNCHANGED << mem, atts, meta, mode, acc, n >>
Next == WCreate \/ OpAdd \/ Close \/ Edit \/ OpReplace \/ OpRemove \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Write)

(* ---- invariants ---- *)
InWriter == mode \in { "writer", "wclosed" }
(* P04: whatever prefix of the writes reached the file, what it reports was completely handed over *)
CrashSafe == InWriter => /\ \A x \in ReadSbs : << "sb", x[1], x[2] >> \in acc
                         /\ \A x \in ReadAtts : << "att", x[1], x[2] >> \in acc
                         /\ (hdr.ok /\ hdr.dir # -1) => DirSeg(hdr.dir, "dir") /\ \A en \in SegOf(hdr.dir).es : EntOk(en, "sb")
                         /\ (hdr.ok /\ hdr.adir # -1) => DirSeg(hdr.adir, "adir") /\ \A en \in SegOf(hdr.adir).es : EntOk(en, "att")
                         /\ (hdr.ok /\ hdr.meta # -1) => At(hdr.meta) # {} /\ SegOf(hdr.meta).full /\ SegOf(hdr.meta).k = "meta"
Closed == mode \in { "wclosed", "eclosed" } /\ q = << >>
(* P01, P03: at rest the file is the document *)
Agrees == Closed => /\ ReadSbs = { << m.id, m.v >> : m \in mem } /\ ReadAtts = { << m.id, m.v >> : m \in atts }
                    /\ (meta # << >>) = (hdr.meta # -1) /\ (meta # << >> => At(hdr.meta) # {} /\ SegOf(hdr.meta).v = meta[2] /\ SegOf(hdr.meta).k = "meta")
(* P02: live segments exist, do not overlap, and there is one live directory of each kind *)
LivePos == { en[1] : en \in Live } \cup ({ hdr.dir, hdr.adir, hdr.meta } \ { -1 })
WellFormed == Closed => /\ hdr.ok /\ \A p \in LivePos : At(p) # {} /\ SegOf(p).full
                        /\ \A s, t \in segs : s # t => s.p + s.al <= t.p \/ t.p + t.al <= s.p
                        /\ Cardinality({ s \in segs : s.k = "dir" }) = 1 /\ Cardinality({ s \in segs : s.k = "adir" }) = 1
Settles == (mode = "wclosed" /\ q # << >>) ~> (q = << >>)
=============================================================================
