----------------------------- MODULE MultiTrace -----------------------------
EXTENDS MultiChannel, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
Fld(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
BadArgs(ev) ==
    \/ ev.n <= 0 \/ (ev.fn = 0 /\ ev.dpt # (IF ev.rgba THEN 9 ELSE 3))
    \/ \E k \in 1..ev.n : LET c == ev.ch[k] IN \/ Fld(c, "nobm", FALSE) \/ c.w # (IF ev.fn = 0 THEN ev.w ELSE ev.ch[1].w) \/ c.h # (IF ev.fn = 0 THEN ev.h ELSE ev.ch[1].h)
                          \/ (UsesLut(c) /\ (Fld(c, "nolut", FALSE) \/ c.pt \notin {0, 1, 3, 4} \/ c.ln # Max(c.pt) + 1))
Judge(ev) ==
    IF ~ev.kept THEN "a source or memory outside of the destination was modified, or a lock was not released"
    ELSE IF BadArgs(ev) THEN (IF ev.r = "ok" THEN "invalid arguments were accepted" ELSE IF ev.r \notin {"arg", "runtime"} THEN "unexpected exception: " \o ev.r ELSE "")
    ELSE LET ch == SubSeq(ev.ch, 1, ev.n) n == IF ev.rgba THEN 4 ELSE 3 IN
         IF \E k \in 1..ev.n : ~Supported(ch[k]) THEN (IF ev.r = "ok" THEN "an unsupported pixel type was accepted" ELSE "")
         ELSE IF ev.r # "ok" THEN "refused: " \o ev.r
         ELSE IF ev.opt # (IF ev.rgba THEN 9 ELSE 3) \/ ev.ow # ch[1].w \/ ev.oh # ch[1].h THEN "wrong format of the result"
         ELSE IF \E q \in (0..(ev.ow - 1)) \X (0..(ev.oh - 1)) : \E k \in 1..3 : ev.px[(q[2] * ev.ow + q[1]) * n + k] \notin Total(ch, ev.n, q, ev.ow, k) THEN "wrong colour computed"
         ELSE IF ev.rgba /\ \E q \in 0..(ev.ow * ev.oh - 1) : ev.px[q * 4 + 4] # ev.alpha THEN "wrong alpha value" ELSE ""
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = << >> /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] v == Judge(ev) IN
             /\ bad' = v /\ i' = i + 1 /\ UNCHANGED << e, s >>
             /\ (v # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o v))
Spec == Init /\ [][Next]_vars
=============================================================================
