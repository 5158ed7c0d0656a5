----------------------------- MODULE ParseTrace -----------------------------
(* Recorded opens and reads of given bytes against CziParse. Two kinds of episode: "exact" (acceptance must be
   exactly the specification's) and otherwise (a refusal is always permitted unless the file is pristine). *)
EXTENDS CziParse, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
F == Eps[e].ev[1].by
ToSet(q) == { q[k] : k \in 1..Len(q) }
Errors == {"parse", "io", "libczi", "meta", "accessor", "badalloc", "arg", "range", "logic", "runtime", "std", "rw", "write"}
Must(st) == st.exact \/ st.pristine
(* v: reported info, r: description in the file *)
InfoBad(v, r) ==
    IF v.px # PixelType(r.px) THEN "pixel type" ELSE IF v.cm # r.cm THEN "compression" ELSE IF ToSet(v.c) # r.x.c THEN "coordinate"
    ELSE IF v.q # r.x.q THEN "position or size" ELSE IF v.m # r.x.m THEN "m-index" ELSE IF v.py # PyramidType(r.py) THEN "pyramid type" ELSE ""
AttBad(v, r) == v.g # r.g \/ v.t # r.t \/ v.n # r.n
Outcome(st, ev, ok, what) ==
    IF ev.r = "ok" /\ ~ok THEN what \o " though its declared content is not in the file or is not acceptable"
    ELSE IF ev.r # "ok" /\ ok /\ Must(st) THEN what \o ": refused (" \o ev.r \o ") though it is acceptable"
    ELSE IF ev.r \notin Errors \cup {"ok", "null"} THEN what \o ": undocumented error" ELSE ""
JudgeOpen(st, ev, x, withpos) ==
    LET v == Outcome(st, ev, x.ok, "open accepted") IN
    IF v # "" THEN v ELSE IF ev.r # "ok" THEN ""
    ELSE IF Len(ev.es) # Len(x.es) THEN "the number of reported sub-blocks is wrong"
    ELSE LET b == { k \in 1..Len(x.es) : InfoBad(ev.es[k], x.es[k]) # "" \/ (withpos /\ ev.es[k].pos # x.es[k].pos) } IN
         IF b # {} THEN LET k == CHOOSE k \in b : TRUE IN "directory entry reported differently from the file: " \o InfoBad(ev.es[k], x.es[k])
    ELSE IF Len(ev.as) # Len(x.as) \/ \E k \in 1..Len(x.as) : AttBad(ev.as[k], x.as[k]) THEN "attachment entries reported differently from the file"
    ELSE IF ~ev.agree THEN "the ways to ask for an entry disagree" ELSE ""
(* the editor additionally needs a metadata segment header where the file says so *)
MetaHead(f, h) == h.metazero \/ (Holds(f, h.meta, 32) /\ Starts(f, h.meta, MMeta))
Policy(st, ev) == IF ev.who = "rw" THEN 129 ELSE st.pol
JudgeSub(st, ev) ==
    LET d == st.x.es[ev.k + 1] h == SubBlock(F, d.pos) p == Policy(st, ev)
        ign == p >= 128 hdr == (p % 2) = 1
        ok == h.ok /\ (ign \/ (~h.de /\ Agree(d, h.r)))
        v == Outcome(st, ev, ok, "sub-block read") IN
    IF v # "" THEN v ELSE IF ev.r # "ok" THEN ""
    ELSE IF ev.me # h.me \/ ev.da # h.da \/ ev.at # h.at THEN "the content of the sub-block is not that in the file"
    ELSE IF hdr /\ h.de THEN ""
    ELSE LET b == InfoBad(ev, IF hdr THEN h.r ELSE d) IN IF b # "" THEN "reported information is not that of the " \o (IF hdr THEN "sub-block" ELSE "directory") \o ": " \o b ELSE ""
(* bitmaps of uncompressed sub-blocks; other encodings are the subject of another specification *)
JudgeBmp(st, ev) ==
    LET d == st.x.es[ev.k + 1] h == SubBlock(F, d.pos)
        w == ev.q[5] hh == ev.q[6] bp == BytesPerPel(ev.px)
        sane == w >= 0 /\ hh >= 0 /\ w < 5000 /\ hh < 5000 /\ bp > 0
        need == IF sane THEN w * hh * bp ELSE 0 IN
    IF ev.r # "ok" THEN (IF ev.r \notin Errors THEN "bitmap: undocumented error" ELSE IF st.pristine /\ ev.cm = 0 /\ sane /\ w > 0 /\ hh > 0 /\ (ev.hm = 1 \/ need <= Len(h.da)) THEN "bitmap refused: " \o ev.r ELSE "")
    ELSE IF ev.bw # w \/ ev.bh # hh \/ ev.bp # ev.px THEN "the bitmap has another size or pixel type than reported"
    ELSE IF ev.cm = 0 /\ ~sane THEN ""
    ELSE IF ev.cm = 0 /\ ev.hm = 0 /\ need > Len(h.da) THEN "a bitmap was made of too little data"
    ELSE IF ev.cm = 0 /\ need <= 2000 /\ ev.by # [ k \in 1..need |-> IF k <= Len(h.da) THEN h.da[k] ELSE 0 ] THEN "the pixels are not the data of the sub-block"
    ELSE ""
JudgeAtt(st, ev) ==
    LET d == st.x.as[ev.k + 1] h == Attachment(F, d.pos) v == Outcome(st, ev, h.ok, "attachment read") IN
    IF v # "" THEN v ELSE IF ev.r # "ok" THEN "" ELSE IF AttBad(ev.i, d) THEN "attachment information is not that of the directory" ELSE IF ev.by # h.by THEN "the content of the attachment is not that in the file" ELSE ""
JudgeMeta(st, ev) ==
    LET h == Metadata(F, st.x.h.meta) none == IF ev.who = "rw" THEN st.x.h.metazero ELSE st.x.h.nometa v == Outcome(st, ev, h.ok /\ ~none, "metadata read") IN
    IF none THEN (IF ev.r = "ok" THEN "metadata read though there is none" ELSE "")
    ELSE IF v # "" THEN v ELSE IF ev.r # "ok" THEN ""
    ELSE IF ev.xml # h.xml \/ ev.at # h.at THEN "the metadata is not that in the file"
    ELSE IF ev.cm \notin Errors \cup {"ok"} THEN "metadata: undocumented error" ELSE ""
Step(st, ev) ==     \* << new state, verdict >>
    CASE ev.o = "file" -> << [ pristine |-> ev.pristine, exact |-> ev.exact, x |-> Refused, pol |-> 0 ], "" >>
      [] ev.o = "open" -> LET nul == "nul" \in DOMAIN ev /\ ev.nul x == Open(F, ~ev.lax /\ ~nul, ev.igm) IN << [ st EXCEPT !.x = x, !.pol = IF nul THEN 0 ELSE ev.pol ], JudgeOpen(st, ev, x, TRUE) >>
      [] ev.o = "edit" -> LET h == Header(F) x0 == Open(F, FALSE, FALSE) x == IF x0.ok /\ ~MetaHead(F, x0.h) THEN Refused ELSE x0 IN
                          (* without a valid file header the file is taken as new *)
                          << [ st EXCEPT !.x = x ], IF ~h.ok THEN (IF ev.r = "ok" /\ (ev.es # << >> \/ ev.as # << >>) THEN "content reported of a file without header" ELSE "") ELSE JudgeOpen(st, ev, x, FALSE) >>
      [] ev.o = "close" -> << st, IF ev.r \notin Errors \cup {"ok"} THEN "close: undocumented error" ELSE IF ev.r = "ok" /\ Header(F).ok /\ ~ev.same THEN "closing the unmodified document changed the file" ELSE "" >>
      [] ev.o \in {"sub", "bmp", "att", "meta"} /\ ~st.x.ok -> << st, "" >>
      [] ev.o = "sub" -> << st, JudgeSub(st, ev) >>
      [] ev.o = "bmp" -> << st, JudgeBmp(st, ev) >>
      [] ev.o = "att" -> << st, JudgeAtt(st, ev) >>
      [] ev.o = "meta" -> << st, JudgeMeta(st, ev) >>
      [] ev.o = "misc" -> << st, IF ToSet(ev.rs) \ (Errors \cup {"ok"}) # {} THEN "undocumented error" ELSE "" >>
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = << >> /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] r == Step(s, ev) IN
             /\ s' = r[1] /\ bad' = r[2] /\ i' = i + 1 /\ UNCHANGED e
             /\ (r[2] # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o r[2]))
Spec == Init /\ [][Next]_vars
=============================================================================
