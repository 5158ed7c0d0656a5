------------------------------- MODULE DocGen -------------------------------
(* Histories of the document state machine, printed as scripts for the driver. *)
(* Mode "writer": create (with every kind of reservation), then every sequence *)
(*   of Depth calls over a small alphabet of items (equal and different         *)
(*   coordinates, tile indices, positions, sizes), attachments and metadata.    *)
(* Mode "editor": every sequence of Depth edits, commits and re-openings of a   *)
(*   small document.                                                            *)
(* Mode "life": every sequence of Depth calls on a writer, a reader and an      *)
(*   editor, legal or not.                                                      *)
(* The size of a content is chosen around what the file layout reserves.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Mode
VARIABLES h, v
S == << 20, 420 >>
Dat(k, x) == [ len |-> S[k], seed |-> 100 * x + k ]
It(m, x, y, f, k, ver) == [ c |-> << << "C", 0 >> >>, hm |-> m >= 0, m |-> IF m < 0 THEN 0 ELSE m, x |-> x, y |-> y, w |-> 8 * f, h |-> 4 * f, pw |-> 8, ph |-> 4, pt |-> 0, cmp |-> 6, pyr |-> 0, via |-> "mem", d |-> Dat(k, ver) ]
AttR(g, k, ver) == [ g |-> g, ft |-> "CZI", nm |-> "n1", d |-> Dat(k, ver) ]
MetaR(k) == [ d |-> IF k = 1 THEN "<ImageDocument/>" ELSE "<ImageDocument><Metadata><Information><Image><SizeX>1</SizeX></Image></Information></Metadata></ImageDocument>" ]
WItems(ver) == { It(0, 0, 0, 1, 1, ver), It(0, 5, 0, 1, 2, ver), It(1, 0, 0, 1, 1, ver), It(-1, 0, 0, 1, 1, ver), It(-1, 5, 0, 1, 1, ver), It(0, 0, 0, 2, 1, ver) }
Creates == { [ op |-> "w_create", g |-> 5 ], [ op |-> "w_create", g |-> 6, rs |-> 1, ra |-> 1, rm |-> 20 ], [ op |-> "w_create", g |-> 7, rs |-> 40, ra |-> 5, rm |-> 1000 ] }
WOps(ver) == { [ op |-> "w_add", it |-> x ] : x \in WItems(ver) }
          \cup { [ op |-> "w_att" ] @@ AttR(g, k, ver) : g \in { 1, 2 }, k \in { 1, 2 } } \cup { [ op |-> "w_meta" ] @@ MetaR(k) : k \in { 1, 2 } }
Base == << [ op |-> "w_new", dup |-> FALSE ], [ op |-> "w_create", g |-> 9 ], [ op |-> "w_add", it |-> It(0, 0, 0, 1, 1, 90) ], [ op |-> "w_att" ] @@ AttR(1, 1, 91), [ op |-> "w_meta" ] @@ MetaR(1), [ op |-> "w_close" ], [ op |-> "e_new" ], [ op |-> "e_create", g |-> 3 ] >>
EOps(ver) == { [ op |-> "e_add", it |-> x ] : x \in { It(0, 0, 0, 1, 1, ver), It(1, 30, 0, 1, 2, ver), It(2, -9, -9, 2, 1, ver) } }
          \cup { [ op |-> "e_rep", sel |-> s, it |-> It(0, 2, 1, 1, k, ver), same |-> b ] : s \in { 0, 1 }, k \in { 1, 2 }, b \in { TRUE, FALSE } }
          \cup { [ op |-> "e_rem", sel |-> s ] : s \in { 0, 1 } }
          \cup { [ op |-> "e_att" ] @@ AttR(2, k, ver) : k \in { 1, 2 } }
          \cup { [ op |-> "e_attrep", sel |-> 0 ] @@ AttR(3, k, ver) : k \in { 1, 2 } } \cup { [ op |-> "e_attrem", sel |-> 0 ] }
          \cup { [ op |-> "e_meta" ] @@ MetaR(2) } \cup { [ op |-> "reopen" ], [ op |-> "commit" ] }
LOps(ver) == { [ op |-> o ] : o \in { "w_new", "w_stats", "w_close", "r_new", "r_open", "r_close", "e_new", "e_close", "e_dump", "dump" } }
          \cup { [ op |-> "w_create", g |-> 5 ], [ op |-> "e_create", g |-> 6 ], [ op |-> "w_add", it |-> It(0, 0, 0, 1, 1, ver) ], [ op |-> "e_add", it |-> It(1, 0, 0, 1, 1, ver) ], [ op |-> "r_call", f |-> "read" ], [ op |-> "r_call", f |-> "attcnt" ], [ op |-> "e_call", f |-> "stats" ] }
Ops(ver) == IF Mode = "writer" THEN WOps(ver) ELSE IF Mode = "editor" THEN EOps(ver) ELSE LOps(ver)
Pre == IF Mode = "writer" THEN { << [ op |-> "w_new", dup |-> FALSE ], cr >> : cr \in Creates } ELSE IF Mode = "editor" THEN { Base, SubSeq(Base, 7, 8) } ELSE { << [ op |-> "w_new", dup |-> FALSE ], [ op |-> "r_new" ], [ op |-> "e_new" ] >> }
Post == IF Mode = "writer" THEN << [ op |-> "w_close" ], [ op |-> "dump" ], [ op |-> "layout" ] >> ELSE IF Mode = "editor" THEN << [ op |-> "e_dump" ], [ op |-> "e_close" ], [ op |-> "dump" ], [ op |-> "layout" ] >> ELSE << [ op |-> "dump" ] >>
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE
    (IF Head(s).op = "reopen" THEN << [ op |-> "e_close" ], [ op |-> "dump" ], [ op |-> "layout" ], [ op |-> "e_drop" ], [ op |-> "e_new" ], [ op |-> "e_create", g |-> 4 ] >>
     ELSE IF Head(s).op = "commit" THEN << [ op |-> "e_close" ], [ op |-> "dump" ], [ op |-> "layout" ] >> ELSE << Head(s) >>) \o Flat(Tail(s))
Init == h = << >> /\ v \in Pre
Next == /\ Len(h) < Depth /\ v' = v
        /\ \E op \in Ops(Len(h) + 1) : h' = Append(h, op)
        /\ (Len(h') = Depth => PrintT("SCRIPT|" \o ToJson([ fam |-> "doc", ops |-> Flat(v \o h' \o Post) ])))
Spec == Init /\ [][Next]_<< h, v >>
=============================================================================
