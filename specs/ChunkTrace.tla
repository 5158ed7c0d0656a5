----------------------------- MODULE ChunkTrace -----------------------------
EXTENDS Chunk, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
Format == << 67, 72, 85, 78, 75, 67, 79, 78, 84, 65, 73, 78, 69, 82 >>            \* CHUNKCONTAINER
StageX == << 83, 116, 97, 103, 101, 88, 80, 111, 115, 105, 116, 105, 111, 110 >>
StageY == << 83, 116, 97, 103, 101, 89, 80, 111, 115, 105, 116, 105, 111, 110 >>
Wf(x) == IF x.k = "raw" THEN x.wf ELSE x.k = "md"
NumOf(x, n) == IF HasTag(x, n) THEN Number(TagText(x, n)) ELSE NotNum
QOk(x, n, o) == /\ o.rs = "ok" /\ o.rd = "ok" /\ o.same
                /\ o.s = HasTag(x, n) /\ (o.s => o.v = TagText(x, n))
                /\ o.d = NumOf(x, n).ok /\ (o.d => o.dv = NumOf(x, n).v)
HasFmt(x) == x.k = "md" /\ "fmt" \in DOMAIN x /\ ~Blank(x.fmt)
JudgeTags(ev) ==
    LET x == ev.xml wf == Wf(x) IN
    IF ev.r # "ok" \/ ev.rc # "ok" THEN "an accessor could not be created"
    ELSE IF ev.valid # wf THEN "validity of the metadata is reported wrongly"
    ELSE IF ~wf THEN (IF \E k \in 1..Len(ev.q) : ev.qr[k].rs # "libczi" \/ ev.qr[k].rd # "libczi" THEN "a tag was read from invalid metadata"
                      ELSE IF ev.rsp # "libczi" \/ ev.rf # "libczi" THEN "invalid metadata is not reported as an error" ELSE "")
    ELSE IF \E k \in 1..Len(ev.q) : ~QOk(x, ev.q[k], ev.qr[k]) THEN "a tag is not reported with its stored value"
    ELSE LET sx == NumOf(x, StageX) sy == NumOf(x, StageY) IN
         IF ev.rsp # "ok" \/ ev.sp # (sx.ok /\ sy.ok) \/ (ev.sp /\ (ev.spx # sx.v \/ ev.spy # sy.v)) THEN "wrong stage position"
    ELSE IF ev.rf # "ok" \/ ev.hf # HasFmt(x) \/ (ev.hf /\ ev.fv # x.fmt) THEN "wrong attachment data format" ELSE ""
Err(r) == r = "libczi"
JudgeChunks(ev) ==
    LET x == ev.xml b == ev.att has == Wf(x) /\ HasFmt(x) /\ x.fmt = Format stop == IF "stop" \in DOMAIN ev THEN ev.stop ELSE 1000 IN
    IF ev.has # has THEN "presence of a chunk container is reported wrongly"
    ELSE IF ~has THEN (IF Err(ev.re) /\ Err(ev.rg) /\ Err(ev.ru) /\ Err(ev.rb) /\ ev.ch = << >> THEN "" ELSE "chunks were read from an attachment which is no container")
    ELSE IF ev.ch # Delivered(b, stop) THEN "wrong chunks"
    ELSE IF ev.re # (IF EnumOk(b, stop) THEN "ok" ELSE "libczi") THEN "a malformed container is not reported (or a good one is): " \o ev.re
    ELSE IF ev.re = "ok" /\ ~ev.ret THEN "the enumeration does not report success"
    ELSE LET m == Mask(b) p == Plain(m) IN
         IF m.ok # (ev.rg = "ok") \/ (~m.ok /\ ~Err(ev.rg)) THEN "wrong outcome of getting the mask: " \o ev.rg
    ELSE IF m.ok /\ (ev.mg.w # m.w \/ ev.mg.h # m.h \/ ev.mg.t # m.t \/ ev.mg.d # m.d) THEN "wrong mask information"
    ELSE IF p.ok # (ev.ru = "ok") \/ (~p.ok /\ ~Err(ev.ru)) THEN "wrong outcome of getting the plain mask: " \o ev.ru
    ELSE IF p.ok /\ (ev.mu.w # p.w \/ ev.mu.h # p.h \/ ev.mu.st # p.st \/ ev.mu.d # p.d) THEN "wrong plain mask information"
    ELSE LET f == p.ok /\ Fits(p) IN
         IF f # (ev.rb = "ok") \/ (~f /\ ~Err(ev.rb)) THEN "wrong outcome of getting the mask bitmap: " \o ev.rb
    ELSE IF f /\ (ev.mb.w # p.w \/ ev.mb.h # p.h \/ ev.mb.px # BitmapOf(p)) THEN "wrong mask bitmap" ELSE ""
Judge(ev) == LET t == JudgeTags(ev) IN IF t # "" THEN t ELSE JudgeChunks(ev)
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = << >> /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] v == Judge(ev) IN
             /\ bad' = v /\ i' = i + 1 /\ UNCHANGED << e, s >>
             /\ (v # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o v))
Spec == Init /\ [][Next]_vars
=============================================================================
