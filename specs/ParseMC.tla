------------------------------- MODULE ParseMC -------------------------------
(* The strictness options over every dimension list up to a length, and generation of those lists as test files. *)
EXTENDS CziParse, TLC, Json, IOUtils
CONSTANTS Names, Vals, MaxLen
ASSUME MaxLen \in Nat
Rec == [ n : Names, start : {0}, size : Vals, stored : Vals ]
VARIABLE d
Init == d = << >>
Next == Len(d) < MaxLen /\ \E r \in Rec : d' = Append(d, r)
Spec == Init /\ [][Next]_d
Dup(x) == \E j, k \in 1..Len(x) : j # k /\ x[j].n = x[k].n
Rev(x) == [ k \in 1..Len(x) |-> x[Len(x) + 1 - k] ]
(* each option only waives, a regular description is accepted by all, the order of the entries is irrelevant *)
Waives == Irregular(d, TRUE) => Irregular(d, FALSE)
Regular == (~Dup(d) /\ {"X", "Y"} \subseteq { d[k].n : k \in 1..Len(d) } /\ \A k \in 1..Len(d) : d[k].n \notin {"X", "Y"} => d[k].size = 1 /\ d[k].stored = 1) => ~Irregular(d, FALSE)
OnlyPyramids == (Irregular(d, FALSE) /\ ~Irregular(d, TRUE)) => Pyramid(Describe(d)) /\ \E k \in 1..Len(d) : d[k].n = "M"
Order == ~Dup(d) => Describe(d) = Describe(Rev(d)) /\ Irregular(d, TRUE) = Irregular(Rev(d), TRUE) /\ Irregular(d, FALSE) = Irregular(Rev(d), FALSE)
Inv == Waives /\ Regular /\ OnlyPyramids /\ Order
Emit == PrintT("SCRIPT|" \o ToJson([ d |-> d ]))
==============================================================================
