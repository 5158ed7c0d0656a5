------------------------------ MODULE CacheGen ------------------------------
(* Behaviours of the abstract cache, printed as scripts for the driver.        *)
EXTENDS SubBlockCache, TLC, Json
CONSTANTS Depth, Rich
Items == << [ w |-> 3, h |-> 2, pt |-> 0, mw |-> 0, mh |-> 0 ], [ w |-> 3, h |-> 2, pt |-> 1, mw |-> 9, mh |-> 2 ], [ w |-> 1048576, h |-> 3000, pt |-> 4, mw |-> 0, mh |-> 0 ], [ w |-> 1, h |-> 7, pt |-> 3, mw |-> 8, mh |-> 1 ] >>
KS == IF Rich THEN { 0, 1, 2, 5, 7 } ELSE { 0, 1 }
Ops == [ o : {"add"}, k : KS, it : IF Rich THEN 1..4 ELSE {1, 2} ] \cup [ o : {"get"}, k : KS ]
       \cup [ o : {"prune"}, mem : IF Rich THEN { << -1, -1 >>, << 0, 0 >>, << 0, 6 >>, << 0, 12 >>, << 0, 16 >>, << 0, 28 >>, << 18000, 0 >>, << 18000, 21 >> } ELSE { << -1, -1 >>, << 0, 6 >> }, cnt : IF Rich THEN { -1, 0, 1, 2, 3 } ELSE { -1, 1 } ]
VARIABLES c, h
Init == c = << >> /\ h = << >>
Next == /\ Len(h) < Depth
        /\ \E op \in Ops : c' = Apply(c, Items, op) /\ h' = Append(h, op)
        /\ (Len(h') = Depth => PrintT("SCRIPT|" \o ToJson([ fam |-> "cache", items |-> Items, seq |-> h', probe |-> TRUE ])))
Spec == Init /\ [][Next]_<< c, h >>
=============================================================================
