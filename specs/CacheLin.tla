------------------------------ MODULE CacheLin ------------------------------
(* Concurrent histories of the real cache: is there a sequential order of the  *)
(* calls, compatible with real time, that SubBlockCache allows? An episode is  *)
(* accepted ("DONE") when TLC finds one.                                       *)
EXTENDS SubBlockCache, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, done, s
Ev == Eps[e].ev
Items == Ev[1].items
N == Len(Ev)
Init == e \in 1..Len(Eps) /\ done = { 1 } /\ s = << >>
Enabled(j) == \A k \in 2..N : k \in done \/ k = j \/ ~(Ev[k].t1 < Ev[j].t0)
Next == \E j \in 2..N \ done : /\ Enabled(j) /\ ResultOk(s, Items, Ev[j])
                               /\ s' = Apply(s, Items, Ev[j]) /\ done' = done \cup { j } /\ UNCHANGED e
                               /\ (Cardinality(done') = N => PrintT("DONE|" \o ToString(e)))
Spec == Init /\ [][Next]_<< e, done, s >>
=============================================================================
