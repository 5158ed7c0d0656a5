------------------------------ MODULE ReaderMC ------------------------------
(* Design of the concurrent reader at the granularity of its shared accesses:  *)
(* operational flag, stream reference (guarded by a mutex), the stream object  *)
(* itself (reference counted). Checked for every interleaving: no use of a     *)
(* freed stream, results only "ok" or "refused", and histories explainable by  *)
(* ReaderConc (each call gets its effect at one instant between start and end).*)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Readers, Closer
VARIABLES pc, flag, ref, cnt, freed, local, absOpen, res, lin
vars == << pc, flag, ref, cnt, freed, local, absOpen, res, lin >>
T == Readers \cup { Closer }
Init == /\ pc = [ t \in T |-> "start" ] /\ flag = TRUE /\ ref = TRUE /\ cnt = 1 /\ freed = FALSE
        /\ local = [ t \in T |-> FALSE ] /\ absOpen = TRUE /\ res = [ t \in T |-> "none" ] /\ lin = [ t \in T |-> "none" ]
(* reader: check flag (a query is answered here) / take reference / read / drop *)
Check(t) == /\ pc[t] = "start" /\ t \in Readers
            /\ IF flag THEN /\ \E nx \in { "take", "answer" } : pc' = [ pc EXCEPT ![t] = nx ]
                            /\ lin' = [ lin EXCEPT ![t] = IF absOpen THEN "ok" ELSE "bad" ] /\ UNCHANGED res
               ELSE /\ pc' = [ pc EXCEPT ![t] = "end" ] /\ res' = [ res EXCEPT ![t] = "refused" ] /\ lin' = [ lin EXCEPT ![t] = IF absOpen THEN "bad" ELSE "refused" ]
            /\ UNCHANGED << flag, ref, cnt, freed, local, absOpen >>
Answer(t) == pc[t] = "answer" /\ pc' = [ pc EXCEPT ![t] = "end" ] /\ res' = [ res EXCEPT ![t] = "ok" ] /\ UNCHANGED << flag, ref, cnt, freed, local, absOpen, lin >>
Take(t) == /\ pc[t] = "take"
           /\ IF ref THEN /\ cnt' = cnt + 1 /\ local' = [ local EXCEPT ![t] = TRUE ] /\ pc' = [ pc EXCEPT ![t] = "read" ] /\ UNCHANGED << res, lin >>
              ELSE /\ pc' = [ pc EXCEPT ![t] = "end" ] /\ res' = [ res EXCEPT ![t] = "refused" ] /\ lin' = [ lin EXCEPT ![t] = IF absOpen THEN "bad" ELSE "refused" ] /\ UNCHANGED << cnt, local >>
           /\ UNCHANGED << flag, ref, freed, absOpen >>
Read(t) == pc[t] = "read" /\ ~freed /\ pc' = [ pc EXCEPT ![t] = "drop" ] /\ res' = [ res EXCEPT ![t] = "ok" ] /\ UNCHANGED << flag, ref, cnt, freed, local, absOpen, lin >>
Drop(t) == pc[t] = "drop" /\ pc' = [ pc EXCEPT ![t] = "end" ] /\ cnt' = cnt - 1 /\ freed' = (cnt = 1) /\ local' = [ local EXCEPT ![t] = FALSE ] /\ UNCHANGED << flag, ref, absOpen, res, lin >>
Close1 == pc[Closer] = "start" /\ flag' = FALSE /\ absOpen' = FALSE /\ pc' = [ pc EXCEPT ![Closer] = "reset" ] /\ UNCHANGED << ref, cnt, freed, local, res, lin >>
Close2 == pc[Closer] = "reset" /\ ref' = FALSE /\ cnt' = cnt - 1 /\ freed' = (cnt = 1) /\ pc' = [ pc EXCEPT ![Closer] = "end" ] /\ res' = [ res EXCEPT ![Closer] = "ok" ] /\ lin' = [ lin EXCEPT ![Closer] = "ok" ] /\ UNCHANGED << flag, local, absOpen >>
Next == Close1 \/ Close2 \/ \E t \in Readers : Check(t) \/ Answer(t) \/ Take(t) \/ Read(t) \/ Drop(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoUseAfterFree == \A t \in Readers : pc[t] \in { "read", "drop" } => ~freed
Explained == \A t \in T : res[t] # "none" => res[t] = lin[t]
AllEnd == <>(\A t \in T : pc[t] = "end")
=============================================================================
