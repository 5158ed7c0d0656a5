----------------------------- MODULE CacheTrace -----------------------------
(* Sequential histories of the real cache against SubBlockCache.               *)
EXTENDS SubBlockCache, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
Items == Eps[e].ev[1].items
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = << >> /\ bad = ""
Judge(ev) == IF ev.o = "init" \/ ResultOk(s, Items, ev) THEN ""
             ELSE IF ev.o = "get" THEN "a lookup returned the wrong item" ELSE "reported count or memory usage is wrong"
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] v == Judge(ev) IN
             /\ bad' = v /\ i' = i + 1 /\ UNCHANGED e
             /\ s' = IF ev.o = "init" THEN << >> ELSE Apply(s, Items, ev)
             /\ (v # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o v))
Spec == Init /\ [][Next]_vars
=============================================================================
