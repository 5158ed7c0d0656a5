------------------------------ MODULE MetaTree ------------------------------
(* The metadata document as a tree. s.nd is a sequence of nodes (the position   *)
(* is the identity, 1 is the root); a node has a name, attributes (a function   *)
(* from names to values) and a sequence of children: <<"e", id>> for an element *)
(* and <<"t", text>> for text (a sequence of character codes).                  *)
EXTENDS Chunk, TLC
(* ---- construction from a nested description ---- *)
AttrFn(a) == [ k \in { a[j][1] : j \in 1..Len(a) } |-> LET j == CHOOSE x \in 1..Len(a) : a[x][1] = k IN a[j][2] ]
RECURSIVE Build(_, _), BuildKids(_, _, _, _)
(* result: the node sequence with the subtree appended; its root is at position Len(nd)+1 *)
Build(nd, t) == BuildKids(Append(nd, [ n |-> t.n, a |-> AttrFn(t.a), c |-> << >> ]), t.c, 1, Len(nd) + 1)
BuildKids(nd, kids, k, me) ==
    IF k > Len(kids) THEN nd
    ELSE IF "t" \in DOMAIN kids[k] THEN BuildKids([ nd EXCEPT ![me].c = Append(@, << "t", kids[k].t >>) ], kids, k + 1, me)
    ELSE BuildKids(LET nd2 == Build(nd, kids[k]) IN [ nd2 EXCEPT ![me].c = Append(@, << "e", Len(nd) + 1 >>) ], kids, k + 1, me)
(* ---- navigation ---- *)
Elems(nd, id) == SelectSeq(nd[id].c, LAMBDA x : x[1] = "e")
Named(nd, id, nm) == SelectSeq(Elems(nd, id), LAMBDA x : nd[x[2]].n = nm)
Matches(nd, id, at) == \A j \in 1..Len(at) : at[j][1] \in DOMAIN nd[id].a /\ nd[id].a[at[j][1]] = at[j][2]
(* identity of the child selected by one part of a path (0: none) *)
Step(nd, id, t) ==
    LET all == Named(nd, id, t.n)
        sel == IF "i" \in DOMAIN t THEN (IF t.i < Len(all) THEN << all[t.i + 1] >> ELSE << >>)
               ELSE IF "at" \in DOMAIN t THEN SelectSeq(all, LAMBDA x : Matches(nd, x[2], t.at)) ELSE all
    IN IF sel = << >> THEN 0 ELSE sel[1][2]
RECURSIVE Walk(_, _, _, _)
Walk(nd, id, p, k) == IF k > Len(p) \/ id = 0 THEN id ELSE Walk(nd, Step(nd, id, p[k]), p, k + 1)
(* ---- changes ---- *)
AddChild(nd, id, nm, a) == Append([ nd EXCEPT ![id].c = Append(@, << "e", Len(nd) + 1 >>) ], [ n |-> nm, a |-> a, c |-> << >> ])
RECURSIVE WalkCreate(_, _, _, _)
(* [nd, id]: every missing part of the path is appended *)
WalkCreate(nd, id, p, k) ==
    IF k > Len(p) THEN [ nd |-> nd, id |-> id ]
    ELSE LET x == Step(nd, id, p[k]) IN
         IF x # 0 THEN WalkCreate(nd, x, p, k + 1)
         ELSE WalkCreate(AddChild(nd, id, p[k].n, IF "at" \in DOMAIN p[k] THEN AttrFn(p[k].at) ELSE AttrFn(<< >>)), Len(nd) + 1, p, k + 1)
CanSet(nd, id) == Elems(nd, id) = << >>
SetText(nd, id, t) == [ nd EXCEPT ![id].c = << << "t", t >> >> ]
SetAttr(nd, id, k, v) == [ nd EXCEPT ![id].a = [ x \in (DOMAIN @) \cup {k} |-> IF x = k THEN v ELSE @[x] ] ]
RemAttr(nd, id, k) == [ nd EXCEPT ![id].a = [ x \in (DOMAIN @) \ {k} |-> @[x] ] ]
RemChild(nd, id, nm) == LET w == Named(nd, id, nm) IN IF w = << >> THEN nd ELSE [ nd EXCEPT ![id].c = SelectSeq(@, LAMBDA x : x # w[1]) ]
(* ---- observation ---- *)
AttrsAre(a, l) == Cardinality(DOMAIN a) = Len(l) /\ \A j \in 1..Len(l) : l[j][1] \in DOMAIN a /\ a[l[j][1]] = l[j][2]
RECURSIVE MergeText(_)
(* adjacent text is one text, blank text is none: what a document keeps when it is written and read *)
MergeText(c) ==
    IF Len(c) < 2 THEN c
    ELSE IF c[1][1] = "t" /\ c[2][1] = "t" THEN MergeText(<< << "t", c[1][2] \o c[2][2] >> >> \o SubSeq(c, 3, Len(c)))
    ELSE << c[1] >> \o MergeText(Tail(c))
Kept(c) == SelectSeq(MergeText(c), LAMBDA x : x[1] = "e" \/ ~Blank(x[2]))
RECURSIVE Shows(_, _, _, _)
(* does v show the node: value = text in the first child, children = elements; norm: after writing and reading *)
Shows(nd, id, v, norm) ==
    LET c == IF norm THEN Kept(nd[id].c) ELSE nd[id].c
        es == SelectSeq(c, LAMBDA x : x[1] = "e")
        hv == Len(c) > 0 /\ c[1][1] = "t" IN
    /\ v.n = nd[id].n /\ "attrbad" \notin DOMAIN v /\ AttrsAre(nd[id].a, v.a)
    /\ v.v = IF hv THEN << c[1][2] >> ELSE << >>
    /\ Len(v.c) = Len(es) /\ \A j \in 1..Len(es) : Shows(nd, es[j][2], v.c[j], norm)
RECURSIVE IsXml(_, _, _)
IsXml(nd, id, x) ==
    LET c == Kept(nd[id].c) IN
    /\ x.n = nd[id].n /\ AttrsAre(nd[id].a, x.a) /\ Len(x.c) = Len(c)
    /\ \A j \in 1..Len(c) : IF c[j][1] = "t" THEN "t" \in DOMAIN x.c[j] /\ x.c[j].t = c[j][2] ELSE "t" \notin DOMAIN x.c[j] /\ IsXml(nd, c[j][2], x.c[j])
(* ---- values as numbers: texts are sequences of codes; numbers are compared as digits ---- *)
RECURSIVE Strip0(_), LexLe(_, _)
Strip0(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip0(Tail(d)) ELSE d
LexLe(x, y) == IF x = << >> THEN TRUE ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE LexLe(Tail(x), Tail(y))
DigLe(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ LexLe(x, y))
(* [ok, neg, d]: blanks, sign, digits, blanks *)
IntText(t) == LET a == SkipWs(t, 1) sg == a <= Len(t) /\ t[a] \in {43, 45} b == IF sg THEN a + 1 ELSE a c == Digits(t, b) IN
    IF c = b \/ SkipWs(t, c) <= Len(t) THEN [ ok |-> FALSE ] ELSE [ ok |-> TRUE, neg |-> sg /\ t[a] = 45, d |-> Strip0(SubSeq(t, b, c - 1)) ]
Codes(s) == s
(* limits *)
D2147483647 == << 50, 49, 52, 55, 52, 56, 51, 54, 52, 55 >>
D2147483648 == << 50, 49, 52, 55, 52, 56, 51, 54, 52, 56 >>
D4294967295 == << 52, 50, 57, 52, 57, 54, 55, 50, 57, 53 >>
DMaxI64 == << 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55 >>
DMinI64 == << 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56 >>
DMaxU64 == << 49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53 >>
IntOk(t, o, max, min, signed) ==
    LET x == IntText(t) IN
    IF ~x.ok THEN ~o.ok
    ELSE IF x.neg /\ ~signed THEN (x.d = << 48 >> \/ ~o.ok) /\ (o.ok => o.v = << 48 >>)
    ELSE IF (x.neg /\ DigLe(x.d, min)) \/ (~x.neg /\ DigLe(x.d, max)) THEN o.ok /\ o.v = (IF x.neg /\ x.d # << 48 >> THEN << 45 >> ELSE << >>) \o x.d ELSE ~o.ok
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
RECURSIVE TrimL(_), TrimR(_)
TrimL(t) == IF t # << >> /\ t[1] \in {32, 9} THEN TrimL(Tail(t)) ELSE t
TrimR(t) == IF t # << >> /\ t[Len(t)] \in {32, 9} THEN TrimR(SubSeq(t, 1, Len(t) - 1)) ELSE t
BoolOf(t) == LET u == TrimR(TrimL(t)) w == [ k \in 1..Len(u) |-> Upper(u[k]) ] IN
    IF w \in { << 84, 82, 85, 69 >>, << 89, 69, 83 >>, << 49 >> } THEN 1 ELSE IF w \in { << 70, 65, 76, 83, 69 >>, << 78, 79 >>, << 48 >> } THEN 0 ELSE 2
TrueText == << 116, 114, 117, 101 >>
FalseText == << 102, 97, 108, 115, 101 >>
=============================================================================
