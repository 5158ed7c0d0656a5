------------------------------ MODULE BmpTrace ------------------------------
EXTENDS BitmapOps, Md5, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
Fld(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
Dots(st) == (0..(st.w - 1)) \X (0..(st.h - 1))
New(st, ev, q) == Obs(ev.px, st.pt, st.w, q[1], q[2])
Old(st, q) == Obs(st.px, st.pt, st.w, q[1], q[2])
Kept(st, ev, q) == New(st, ev, q) = Old(st, q)
(* the resize that makes a new bitmap starts from black *)
Base(st, ev, q) == IF Fld(ev, "ut", FALSE) THEN FillOk(st.pt, << 0, 0, 0 >>, New(st, ev, q)) ELSE Kept(st, ev, q)
SrcPx(c, x, y) == Px(c.pt, c.s, x, y)
(* does the mask of a copy let source pixel u,v pass? *)
Passes(st, ev, u, v) == IF "m" \in DOMAIN ev THEN In(u, v, ev.m.w, ev.m.h) /\ MaskBit(ev.m.ms, u, v) ELSE IF Fld(ev, "cur", FALSE) THEN In(u, v, st.bw, st.bh) /\ Bit(st.bits, st.bw, u, v) ELSE TRUE
CopyPixOk(st, ev, q) ==
    LET u == q[1] - ev.x v == q[2] - ev.y IN
    IF In(u, v, ev.src.w, ev.src.h) /\ Passes(st, ev, u, v) THEN ConvOk(ev.src.pt, st.pt, SrcPx(ev.src, u, v), New(st, ev, q)) ELSE Kept(st, ev, q)
NnSupported(sp, dp) == Supported(sp, dp) \/ (sp = 9 /\ dp = 9)
NnConv(sp, dp, c, o) == IF sp = 9 THEN o = c ELSE ConvOk(sp, dp, c, o)
NnPixOk(st, ev, rs, rd, q) ==
    LET set == \E nx \in Near(q[1], rs[1], rs[3], rd[1], rd[3], ev.src.w), ny \in Near(q[2], rs[2], rs[4], rd[2], rd[4], ev.src.h) : NnConv(ev.src.pt, st.pt, SrcPx(ev.src, nx, ny), New(st, ev, q))
        must == MustSet(q[1], rs[1], rs[3], rd[1], rd[3], ev.src.w) /\ MustSet(q[2], rs[2], rs[4], rd[2], rd[4], ev.src.h)
        may == MaySet(q[1], rs[1], rs[3], rd[1], rd[3], ev.src.w) /\ MaySet(q[2], rs[2], rs[4], rd[2], rd[4], ev.src.h)
    IN IF must THEN set ELSE IF may THEN set \/ Base(st, ev, q) ELSE Base(st, ev, q)
(* a whole-image reduction sets every destination pixel *)
NnFullOk(st, ev, q) ==
    LET rs == << 0, 0, 4 * ev.src.w, 4 * ev.src.h >> rd == << 0, 0, 4 * st.w, 4 * st.h >> IN
    NnPixOk(st, ev, rs, rd, q) /\ (ev.src.w >= st.w /\ ev.src.h >= st.h => \E nx \in Near(q[1], 0, rs[3], 0, rd[3], ev.src.w), ny \in Near(q[2], 0, rs[4], 0, rd[4], ev.src.h) : NnConv(ev.src.pt, st.pt, SrcPx(ev.src, nx, ny), New(st, ev, q)))
AllPix(st, ev, ok(_), txt) == IF Len(ev.px) # st.w * st.h * NC(st.pt) THEN "recording is incomplete" ELSE IF \A q \in Dots(st) : ok(q) THEN "" ELSE txt
Refusal(st, ev, sup) == IF ~sup THEN (IF ev.r = "ok" THEN "an unsupported conversion was accepted" ELSE IF ev.px # st.px THEN "a refused operation changed the destination" ELSE "") ELSE IF ev.r # "ok" THEN "a supported operation was refused: " \o ev.r ELSE "-"
JudgeCopy(st, ev) ==
    LET empty == ~(ev.x < st.w /\ ev.y < st.h /\ ev.x + ev.src.w > 0 /\ ev.y + ev.src.h > 0)
        x == IF empty THEN (IF ev.px # st.px THEN "a copy outside the destination changed it" ELSE "") ELSE Refusal(st, ev, Supported(ev.src.pt, st.pt))
    IN IF x # "-" THEN (IF ~empty /\ ~Supported(ev.src.pt, st.pt) /\ ev.r = "ok" /\ ev.px = st.px THEN "" ELSE x) ELSE AllPix(st, ev, LAMBDA q : CopyPixOk(st, ev, q), "a copy computed wrong pixels")
JudgeNn(st, ev) ==
    LET x == Refusal(st, ev, NnSupported(ev.src.pt, st.pt) /\ (ev.o = "nn" => ev.src.pt = st.pt)) IN
    IF x # "-" THEN x ELSE AllPix(st, ev, LAMBDA q : IF ev.o = "nn" THEN NnFullOk(st, ev, q) ELSE NnPixOk(st, ev, ev.rs, ev.rd, q), "a resize computed wrong pixels")
JudgeFill(st, ev) == IF ev.r # "ok" THEN "fill refused: " \o ev.r ELSE AllPix(st, ev, LAMBDA q : FillOk(st.pt, ev.bg, New(st, ev, q)), "fill computed wrong pixels")
(* all bits incl. the unused ones of the last byte of a row *)
BDots(st) == (0..(8 * RowBytes(st.bw) - 1)) \X (0..(st.bh - 1))
BJudge(st, ev, want(_), pad, txt) ==
    IF ev.bw # st.bw \/ ev.bh # st.bh THEN "the mask changed its size"
    ELSE IF \A q \in BDots(st) : (q[1] < st.bw => Bit(ev.bits, st.bw, q[1], q[2]) = want(q)) /\ (q[1] >= st.bw /\ pad => Bit(ev.bits, st.bw, q[1], q[2]) = Bit(st.bits, st.bw, q[1], q[2])) THEN "" ELSE txt
Was(st, q) == Bit(st.bits, st.bw, q[1], q[2])
JudgeBit(st, ev) ==
    CASE ev.o = "bset" -> IF ~In(ev.x, ev.y, st.bw, st.bh) THEN (IF ev.r = "ok" THEN "setting a pixel outside was accepted" ELSE BJudge(st, ev, LAMBDA q : Was(st, q), TRUE, "a refused operation changed the mask"))
                         ELSE IF ev.r # "ok" THEN "refused: " \o ev.r ELSE BJudge(st, ev, LAMBDA q : IF q = << ev.x, ev.y >> THEN ev.v ELSE Was(st, q), TRUE, "setting a pixel changed the wrong bits")
      [] ev.o = "bget" -> IF ~In(ev.x, ev.y, st.bw, st.bh) THEN (IF ev.r = "ok" THEN "reading a pixel outside was accepted" ELSE "")
                         ELSE IF ev.r # "ok" THEN "refused: " \o ev.r ELSE IF ev.got # Was(st, << ev.x, ev.y >>) THEN "wrong pixel value" ELSE BJudge(st, ev, LAMBDA q : Was(st, q), TRUE, "reading changed the mask")
      [] ev.o = "bfill" -> IF ev.r # "ok" THEN (IF ev.w < 0 \/ ev.h < 0 THEN BJudge(st, ev, LAMBDA q : Was(st, q), TRUE, "a refused operation changed the mask") ELSE "refused: " \o ev.r)
                          ELSE BJudge(st, ev, LAMBDA q : IF InRect(q[1], q[2], << ev.x, ev.y, ev.w, ev.h >>) THEN ev.v ELSE Was(st, q), TRUE, "fill changed the wrong bits")
      [] ev.o = "ball" -> IF ev.r # "ok" THEN "refused: " \o ev.r ELSE BJudge(st, ev, LAMBDA q : ev.v, FALSE, "not all pixels were set")
      [] OTHER -> IF ev.n \notin 0..7 THEN (IF ev.r = "ok" THEN "an invalid neighbourhood was accepted" ELSE "")
                  ELSE IF ev.r # "ok" THEN "refused: " \o ev.r
                  ELSE IF ev.bw # st.bw \div 2 \/ ev.bh # st.bh \div 2 THEN "the reduced mask has the wrong size"
                  ELSE IF \A x \in 0..(ev.bw - 1), y \in 0..(ev.bh - 1) : Bit(ev.bits, ev.bw, x, y) = DecBit(st.bits, st.bw, st.bh, ev.n, x, y) THEN "" ELSE "the reduced mask is wrong"
(* the hash of a bitmap is the MD5 digest of its lines, of a buffer that of its bytes *)
JudgeMd5(st, ev) == IF ev.px # st.px THEN "hashing changed the destination" ELSE IF ev.r # "ok" THEN "hashing failed: " \o ev.r ELSE IF ev.n # 16 \/ ev.n0 # 16 THEN "wrong size of the hash" ELSE IF ev.small = "ok" \/ ~ev.same THEN "a hash was written into a buffer which is too small" ELSE IF ev.hash # Md5(ev.data) THEN "wrong hash" ELSE ""
Start(ev) == [pt |-> ev.pt, w |-> ev.w, h |-> ev.h, px |-> ev.px, bits |-> ev.bits, bw |-> ev.bw, bh |-> ev.bh]
JudgeInit(ev) == LET st == Start(ev) IN
    IF ~\A q \in Dots(st) : NnConv(ev.pt, ev.pt, Px(ev.pt, ev.s, q[1], q[2]), Old(st, q)) THEN "initial bitmap"
    ELSE IF ~\A x \in 0..(ev.bw - 1), y \in 0..(ev.bh - 1) : Bit(ev.bits, ev.bw, x, y) = MaskBit(ev.ms, x, y) THEN "initial mask" ELSE ""
Judge(st, ev) ==
    IF ev.o = "init" THEN JudgeInit(ev)
    ELSE IF ~ev.srcok THEN "the source was modified" ELSE IF ~ev.gok THEN "bytes outside the image were modified" ELSE IF ~ev.lck THEN "a lock was not released"
    ELSE CASE ev.o \in {"copyat", "copyoff"} -> JudgeCopy(st, ev) [] ev.o \in {"nn", "nnroi"} -> JudgeNn(st, ev) [] ev.o = "fill" -> JudgeFill(st, ev) [] ev.o = "md5" -> JudgeMd5(st, ev) [] OTHER -> JudgeBit(st, ev)
Upd(st, ev) ==
    IF ev.o = "init" THEN Start(ev)
    ELSE IF "px" \in DOMAIN ev THEN [st EXCEPT !.px = ev.px]
    ELSE IF ev.o = "bdec" /\ ~Fld(ev, "keep", FALSE) THEN st
    ELSE [st EXCEPT !.bits = ev.bits, !.bw = ev.bw, !.bh = ev.bh]
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = << >> /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] v == Judge(s, ev) IN
             /\ bad' = v /\ i' = i + 1 /\ s' = Upd(s, ev) /\ UNCHANGED e
             /\ (v # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o v))
Spec == Init /\ [][Next]_vars
=============================================================================
