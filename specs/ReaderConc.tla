----------------------------- MODULE ReaderConc -----------------------------
(* One open document used by several threads: an abstract object with a single *)
(* flag. A call is answered with the result it has when made alone while the   *)
(* document is open, and refused ("logic": wrong state) when it is closed.     *)
EXTENDS Integers, Sequences, FiniteSets
(* ref: sequence of [r, d], the result of every operation when called alone *)
CallOk(open, ref, ev) ==
    CASE ev.o = "close" -> (open /\ ev.r = "ok") \/ (~open /\ ev.r = "logic")
      [] OTHER -> /\ IF open THEN ev.r = ref[ev.q].r /\ (ev.r = "ok" => ev.d = ref[ev.q].d) ELSE ev.r = "logic"
                  /\ "late" \in DOMAIN ev => ev.late
After(open, ev) == open /\ ev.o # "close"
=============================================================================
