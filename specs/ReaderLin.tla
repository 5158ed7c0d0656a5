------------------------------ MODULE ReaderLin ------------------------------
(* Concurrent histories recorded from the real reader: accepted iff some       *)
(* sequential order compatible with real time is allowed by ReaderConc.        *)
EXTENDS ReaderConc, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, done, open
Ev == Eps[e].ev
N == Len(Ev)
Init == e \in 1..Len(Eps) /\ done = { 1 } /\ open = TRUE
Enabled(j) == \A k \in 2..N : k \in done \/ k = j \/ ~(Ev[k].t1 < Ev[j].t0)
(* calls do not change the state, so of the enabled explainable calls the first may always be taken *)
Takeable == { j \in 2..N : j \notin done /\ Ev[j].o # "close" /\ Enabled(j) /\ CallOk(open, Ev[1].ref, Ev[j]) }
Step(j) == /\ open' = After(open, Ev[j]) /\ done' = done \cup { j } /\ UNCHANGED e
           /\ (Cardinality(done') = N => PrintT("DONE|" \o ToString(e)))
Next == IF Takeable # {} THEN Step(CHOOSE j \in Takeable : TRUE)
        ELSE \E j \in 2..N : j \notin done /\ Ev[j].o = "close" /\ Enabled(j) /\ CallOk(open, Ev[1].ref, Ev[j]) /\ Step(j)
Spec == Init /\ [][Next]_<< e, done, open >>
=============================================================================
