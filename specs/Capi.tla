-------------------------------- MODULE Capi --------------------------------
(* The C interface: a table of live handles, each referring to one object; what a handle may be used for depends on its kind
   alone, what it delivers on its object alone.  A handle record:
   k kind, d document (-1: none), i item of the document, l locks, b content of a bitmap << info, full >>, x external stream
   which has to stay open for it (-1: none), w contents of a writer. *)
EXTENDS Integers, Sequences, FiniteSets
NoW == [st |-> 0, dup |-> FALSE, subs |-> << >>, keys |-> {}, atts |-> << >>, md |-> "none", guid |-> -1]
Rec(k) == [k |-> k, d |-> -1, i |-> 0, l |-> 0, b |-> << "?", "?" >>, x |-> -1, w |-> NoW]
\* the kind of handle an operation needs
Needs(o) ==
    CASE o \in { "open", "hdr", "stat", "statx", "pyr", "rsb", "gmd", "atn", "ati", "rat", "sbi", "cacc" } -> "rd"
      [] o \in { "cbm", "sbinfo", "sbraw" } -> "sb"
      [] o \in { "atinfo", "atraw" } -> "at"
      [] o \in { "bminfo", "lock", "unlock", "copy", "peek" } -> "bm"
      [] o \in { "xml", "cdi" } -> "md"
      [] o \in { "gen", "scal", "dims", "gds", "dimi" } -> "di"
      [] o \in { "cds", "fill" } -> "ds"
      [] o \in { "csize", "get" } -> "ac"
      [] o \in { "create", "addsb", "addatt", "wmeta", "wclose" } -> "wr"
      [] OTHER -> "none"
\* the kind of the handle an operation creates
Makes(o) ==
    CASE o = "mkrd" -> "rd" [] o = "mkin" -> "in" [] o = "mkos" -> "os" [] o = "mkwr" -> "wr" [] o = "rsb" -> "sb" [] o = "gmd" -> "md"
      [] o = "rat" -> "at" [] o = "cacc" -> "ac" [] o = "cbm" -> "bm" [] o = "cdi" -> "di" [] o = "gds" -> "ds" [] o = "cds" -> "cd"
      [] o = "get" -> "bm" [] o = "comp" -> "bm" [] OTHER -> "none"
Good(H, h, k) == h \in DOMAIN H /\ H[h].k = k
Drop(H, h) == [j \in DOMAIN H \ {h} |-> H[j]]
Add(H, h, r) == [j \in DOMAIN H \cup {h} |-> IF j = h THEN r ELSE H[j]]
\* an external stream must stay open as long as a handle needs it
Needed(H, x) == \E j \in DOMAIN H : H[j].x = x
\* which releases succeed
Releasable(H, h, k) == Good(H, h, k) /\ (k = "bm" => H[h].l = 0)
=============================================================================
