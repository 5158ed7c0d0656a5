---------------------------- MODULE DisplayTrace ----------------------------
EXTENDS Display, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
JudgeGamma(ev) ==
    LET mx == IF ev.w16 THEN 65535 ELSE 255 lo == Low(ev.n, ev.bp) hi == High(ev.n, ev.bp, ev.wp) l == ev.l d == hi - lo - 1 IN
    IF ev.r # "ok" THEN "refused: " \o ev.r ELSE IF Len(l) # ev.n THEN "the look-up table has the wrong size"
    ELSE IF \E k \in 1..lo : l[k] # 0 THEN "an entry below the black point is not the minimum"
    ELSE IF \E k \in (hi + 1)..ev.n : l[k] # mx THEN "an entry above the white point is not the maximum"
    ELSE IF \E k \in 1..(ev.n - 1) : l[k] > l[k + 1] THEN "the look-up table is not monotone"
    ELSE IF d > 0 /\ \E k \in 0..d : ~GammaOk(l[lo + k + 1], k, d, ev.gm, mx) THEN "the look-up table does not follow the gamma curve"
    ELSE IF d > 0 /\ \E k \in 0..d : Abs(l[lo + k + 1] - ev.cv[k + 1]) > (IF ev.w16 THEN 40 ELSE 1) THEN "the look-up table does not follow the documented curve" ELSE ""
JudgeSpline(ev) ==
    IF ~Increasing(ev.pts) THEN "" ELSE IF ev.r # "ok" THEN "refused: " \o ev.r
    ELSE IF ~Interpolates(ev.pts, ev.k) THEN "the spline does not pass through its control points"
    ELSE IF Wide(ev.pts) /\ ~Smooth(ev.k) THEN "the spline is not smooth" ELSE ""
JudgeSlut(ev) ==
    LET x == JudgeSpline(ev) lo == Low(ev.n, ev.bp) hi == High(ev.n, ev.bp, ev.wp) l == ev.l IN
    IF x # "" \/ ~Increasing(ev.pts) THEN x
    ELSE IF ev.r2 # "ok" THEN "refused: " \o ev.r2 ELSE IF Len(l) # ev.n THEN "the look-up table has the wrong size"
    ELSE IF \E k \in 1..lo : l[k] # 0 THEN "an entry below the black point is not the minimum"
    ELSE IF \E k \in (hi + 1)..ev.n : l[k] # 255 THEN "an entry above the white point is not the maximum"
    ELSE IF hi - lo > 1 /\ \E k \in 0..(hi - lo - 1) : l[lo + k + 1] \notin FromVal(ev.val[k + 1][Piece(ev.pts, k, hi - lo)]) THEN "the look-up table does not follow the spline" ELSE ""
Enabled(ev) == SelectSeq([ k \in 1..Len(ev.ch) |-> k - 1 ], LAMBDA k : ev.ch[k + 1].en)
Unsup(ev) == \E k \in 1..Len(ev.ch) : ev.ch[k].en /\ ev.ch[k].mode # 0 /\ ev.ch[k].pt \notin {0, 1, 3, 4}
ActOk(q, x) == /\ Near(x.wt, 100 * q.wt) /\ x.tint = q.tint /\ (q.tint => x.col = q.col) /\ Near(x.bp, 100 * q.bp) /\ Near(x.wp, 100 * q.wp) /\ x.lutok
               /\ x.ln = IF q.mode = 0 THEN 0 ELSE IF q.pt \in {1, 4} THEN 65536 ELSE 256
JudgeDs(ev) ==
    LET en == Enabled(ev) IN
    IF ev.r # "ok" THEN "refused: " \o ev.r
    ELSE IF Len(ev.d1) # Len(ev.ch) \/ \E k \in 1..Len(ev.ch) : ~Reports(ev.ch[k], ev.d1[k]) THEN "display settings do not report what they were created from"
    ELSE IF ev.d2 # ev.d1 THEN "a copy of display settings is different"
    ELSE IF Len(ev.d3) # Len(ev.ch) \/ \E k \in 1..Len(ev.ch) : ~Reports(ev.ch[k], ev.d3[k]) THEN "display settings read back from metadata are different"
    ELSE IF Unsup(ev) THEN (IF ev.r2 = "ok" THEN "an unsupported pixel type was accepted" ELSE "")
    ELSE IF ev.r2 # "ok" THEN "refused: " \o ev.r2
    ELSE IF ev.ena # en \/ Len(ev.act) # Len(en) THEN "wrong set of active channels"
    ELSE IF \E k \in 1..Len(en) : ev.act[k].id # en[k] \/ ~ActOk(ev.ch[en[k] + 1], ev.act[k]) THEN "wrong parameters for an active channel" ELSE ""
Judge(ev) == CASE ev.o = "gamma" -> JudgeGamma(ev) [] ev.o = "spline" -> JudgeSpline(ev) [] ev.o = "slut" -> JudgeSlut(ev) [] OTHER -> JudgeDs(ev)
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = << >> /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] v == Judge(ev) IN
             /\ bad' = v /\ i' = i + 1 /\ UNCHANGED << e, s >>
             /\ (v # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o v))
Spec == Init /\ [][Next]_vars
=============================================================================
