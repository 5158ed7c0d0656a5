----------------------------- MODULE CodecTrace -----------------------------
EXTENDS Codec, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
Fld(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
Shape(ev) == ev.iw = ev.w /\ ev.ih = ev.h /\ ev.ipt = ev.pt
(* JPEG XR keeps only 13 bits of the mantissa of a float, so it is approximate there by nature *)
Approx(ev) == ev.pt = 2 /\ (ev.o = "jm" \/ ev.sch = 1)
Far(o, x) == (IF o > x THEN o - x ELSE x - o) > x \div 4096
PixBad(ev, pt, w, f(_, _)) == { q \in (0..(ev.w - 1)) \X (0..(ev.h - 1)) : LET o == Obs(ev.px, pt, w, q[1], q[2]) x == f(q[1], q[2]) IN IF pt # 2 THEN o # x ELSE IF ~Approx(ev) THEN o[1] # x[1] * 4096 ELSE Far(o[1], x[1] * 4096) }
JudgeRt(ev) ==
    LET small == Fld(ev, "var", 0) = 4 IN
    IF ~ev.gok THEN "the source or its surroundings were modified"
    ELSE IF ~ev.bal THEN "temporary buffers were not freed"
    ELSE IF ev.rc # "ok" THEN (IF small THEN "" ELSE "compression refused: " \o ev.rc)
    ELSE IF ev.r # "ok" THEN "decoding what was encoded is refused: " \o ev.r
    ELSE IF ~Shape(ev) THEN "the decoded bitmap has another size or pixel type"
    ELSE IF ev.sch = 1 /\ Fld(ev, "qu", 1000) < 1000 THEN ""
    ELSE IF ~ev.same /\ ~Approx(ev) THEN "the decoded bitmap differs from the encoded one"
    ELSE IF "px" \in DOMAIN ev /\ PixBad(ev, ev.pt, ev.w, LAMBDA x, y : Px(ev.pt, ev.s, x, y)) # {} THEN "the decoded bitmap differs from the encoded one"
    ELSE ""
JudgeMm(ev) ==
    LET need == ev.w * ev.h * BytesPerPel(ev.pt)
        packed == ev.sch = 6 /\ HdrPacked(ev.hdr)
        raw == Raw(ev.s, ev.n)
        content == IF packed THEN UnpackLoHi(raw) ELSE raw
    IN IF ev.sch = 6 /\ (~HdrOk(ev.hdr) \/ (packed /\ ev.pt \notin {1, 4})) THEN (IF ev.r = "ok" THEN "an invalid header was accepted" ELSE "")
       ELSE IF packed /\ ev.n % 2 = 1 THEN ""
       ELSE IF ev.n # need /\ ev.hm = 0 THEN (IF ev.r = "ok" /\ ~(ev.sch = 0 /\ ev.n > need) THEN "a size mismatch was accepted though it must be refused" ELSE IF ev.r = "ok" /\ ev.by # Fit(content, need) THEN "wrong pixels for data of unexpected size" ELSE "")
       ELSE IF ev.r # "ok" THEN "decoding is refused: " \o ev.r
       ELSE IF ~Shape(ev) THEN "the decoded bitmap has another size or pixel type"
       ELSE IF ev.by # Fit(content, need) THEN "wrong pixels for data of unexpected size" ELSE ""
JudgeJm(ev) ==
    IF ev.pt1 # ev.pt THEN (IF ev.hm = 0 /\ ev.r = "ok" THEN "a mismatch of the pixel type was accepted though it must be refused" ELSE IF ev.r = "ok" /\ ~Shape(ev) THEN "the decoded bitmap has another size or pixel type" ELSE "")
    ELSE IF (ev.w1 # ev.w \/ ev.h1 # ev.h) /\ ev.hm = 0 THEN (IF ev.r = "ok" THEN "a size mismatch was accepted though it must be refused" ELSE "")
    ELSE IF ev.r # "ok" THEN "decoding is refused: " \o ev.r
    ELSE IF ~Shape(ev) THEN "the decoded bitmap has another size or pixel type"
    ELSE IF PixBad(ev, ev.pt, ev.w, LAMBDA x, y : IF x < ev.w1 /\ y < ev.h1 THEN Px(ev.pt, ev.s, x, y) ELSE [ k \in 1..NC(ev.pt) |-> 0 ]) # {} THEN "cropping or padding gives wrong pixels" ELSE ""
Judge(ev) == CASE ev.o = "rt" -> JudgeRt(ev) [] ev.o = "mm" -> JudgeMm(ev) [] OTHER -> JudgeJm(ev)
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = 0 /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] v == Judge(ev) IN
             /\ bad' = v /\ i' = i + 1 /\ UNCHANGED << e, s >>
             /\ (v # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o v))
Spec == Init /\ [][Next]_vars
=============================================================================
