----------------------------- MODULE MetaTrace -----------------------------
EXTENDS MetaTree, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
Abs(v) == IF v < 0 THEN -v ELSE v
Root == [ n |-> "ImageDocument", a |-> << >>, c |-> << >> ]
(* s.h: which node each handle refers to (0: none) *)
RECURSIVE AddTags(_, _, _)
(* the metadata of a subblock, built from a list of tags *)
AddTags(nd, l, k) == IF k > Len(l) THEN nd ELSE LET x == WalkCreate(nd, 1, << [ n |-> "Tags" ], [ n |-> l[k].n ] >>, 1) IN AddTags(SetText(x.nd, x.id, l[k].v), l, k + 1)
Doc0(ev) == IF "tags" \in DOMAIN ev THEN AddTags(Build(<< >>, [ Root EXCEPT !.n = "METADATA" ]), ev.tags, 1) ELSE Build(<< >>, IF "t" \in DOMAIN ev THEN ev.t ELSE Root)
Init0(ev) == [ nd |-> Doc0(ev), h |-> [ k \in 0..63 |-> IF k = 0 THEN 1 ELSE 0 ] ]
Few(t) == Cardinality({ k \in 1..Len(t) : Digit(t[k]) }) <= 6
(* outcome: [st: new state, v: verdict] *)
Ok(st, v) == [ st |-> st, v |-> v ]
Text(nd, id) == IF Len(nd[id].c) > 0 /\ nd[id].c[1][1] = "t" THEN nd[id].c[1][2] ELSE << >>
HasText(nd, id) == Len(nd[id].c) > 0 /\ nd[id].c[1][1] = "t"
JTv(nd, id, ev) ==
    LET t == Text(nd, id) x == Number(t) b == BoolOf(t) IN
    IF ev.r # "ok" THEN "refused: " \o ev.r
    ELSE IF ~HasText(nd, id) THEN (IF ev.i32.ok \/ ev.u32.ok \/ ev.i64.ok \/ ev.u64.ok \/ ev.dbl.ok \/ ev.dbl.fok \/ ev.bool.ok THEN "a node without value was read as a number" ELSE "")
    ELSE IF ~(ev.i32.same /\ ev.u32.same /\ ev.i64.same /\ ev.u64.same /\ ev.dbl.same /\ ev.bool.same) THEN "the outcome depends on whether the value is asked for"
    ELSE IF ~IntOk(t, ev.i32, D2147483647, D2147483648, TRUE) THEN "wrong 32-bit integer"
    ELSE IF ~IntOk(t, ev.u32, D4294967295, << 48 >>, FALSE) THEN "wrong unsigned 32-bit integer"
    ELSE IF ~IntOk(t, ev.i64, DMaxI64, DMinI64, TRUE) THEN "wrong 64-bit integer"
    ELSE IF ~IntOk(t, ev.u64, DMaxU64, << 48 >>, FALSE) THEN "wrong unsigned 64-bit integer"
    ELSE IF Few(t) /\ (ev.dbl.ok # x.ok \/ ev.dbl.fok # x.ok) THEN "wrong outcome for a floating point number"
    ELSE IF Few(t) /\ x.ok /\ Abs(x.v) < 1000000000 /\ (ev.dbl.v # x.v \/ Abs(ev.dbl.fv - x.v) > Abs(x.v) \div 4000000 + 1) THEN "wrong floating point number"
    ELSE IF ev.bool.ok # (b # 2) \/ (b # 2 /\ ev.bool.v # (b = 1)) THEN "wrong boolean" ELSE ""
(* a read-only interface: the document has one child, the root element, and nothing else *)
JReading(nd, ev, o) ==
    LET good == ~("cut" \in DOMAIN ev /\ ev.cut) raw == "raw" \in DOMAIN ev IN
    IF o.valid # good THEN "validity of the XML text is reported wrongly"
    ELSE IF ~good THEN (IF \A k \in 1..6 : o.rs[k] = "libczi" THEN (IF o.r6 = "libczi" THEN "" ELSE "a node was read from an invalid XML text") ELSE "something was read from an invalid XML text")
    ELSE IF \E k \in 1..6 : o.rs[k] # "ok" THEN "reading the document failed"
    ELSE IF ~o.none \/ o.kids # 1 THEN "the document does not consist of the root element"
    ELSE IF ~Shows(nd, 1, o.root, TRUE) THEN "the read-only interface shows another document"
    ELSE IF ~o.wf \/ ~IsXml(nd, 1, o.x) THEN "the XML text of the read-only interface is not the document"
    ELSE IF raw THEN (IF o.r6 \in {"libczi", "meta", "ok"} /\ o.nul THEN "" ELSE "a malformed path was accepted")
    ELSE LET x == Walk(nd, 1, ev.p, 1) IN IF o.r6 # "ok" \/ o.nul # (x = 0) THEN "wrong outcome of getting a node: " \o o.r6 ELSE IF x # 0 /\ ~Shows(nd, x, o.node, TRUE) THEN "the wrong node was found" ELSE ""
Do(st, ev) ==
    IF ev.o = "init" THEN Ok(Init0(ev), IF ev.r = "ok" THEN "" ELSE "a document could not be read") ELSE
    LET nd == st.nd id == IF ev.o \in {"xml", "view"} THEN 1 ELSE st.h[ev.h] malformed == "raw" \in DOMAIN ev IN
    IF ev.r = "skip" THEN Ok(st, IF id # 0 THEN "a node which exists was not found" ELSE "")
    ELSE IF id = 0 THEN Ok(st, "a node was found which does not exist")
    ELSE CASE ev.o = "goc" ->
            IF malformed THEN Ok([ st EXCEPT !.h[ev.nh] = 0 ], IF ev.r = "libczi" /\ ev.nul THEN "" ELSE "a malformed path was accepted")
            ELSE LET x == WalkCreate(nd, id, ev.p, 1) IN Ok([ nd |-> x.nd, h |-> [ st.h EXCEPT ![ev.nh] = x.id ] ], IF ev.r = "ok" /\ ~ev.nul THEN "" ELSE "a node was not created: " \o ev.r)
      [] ev.o = "get" ->
            IF malformed THEN Ok([ st EXCEPT !.h[ev.nh] = 0 ], IF ev.r \in {"libczi", "ok"} /\ ev.nul THEN "" ELSE "a malformed path was accepted")
            ELSE LET x == Walk(nd, id, ev.p, 1) IN Ok([ st EXCEPT !.h[ev.nh] = x ], IF ev.r = "ok" /\ ev.nul = (x = 0) THEN "" ELSE "wrong outcome of getting a node: " \o ev.r)
      [] ev.o = "ro" ->
            IF malformed THEN Ok(st, IF ev.r \in {"libczi", "ok"} /\ ev.nul THEN "" ELSE "a malformed path was accepted")
            ELSE LET x == Walk(nd, id, ev.p, 1) IN Ok(st, IF ev.r # "ok" \/ ev.nul # (x = 0) THEN "wrong outcome of getting a node: " \o ev.r ELSE IF x # 0 /\ ~Shows(nd, x, ev.ro, FALSE) THEN "the wrong node was found" ELSE "")
      [] ev.o = "app" -> Ok([ nd |-> AddChild(nd, id, ev.nm, AttrFn(<< >>)), h |-> [ st.h EXCEPT ![ev.nh] = Len(nd) + 1 ] ], IF ev.r = "ok" /\ ~ev.nul THEN "" ELSE "a node was not added")
      [] ev.o = "sa" -> Ok([ st EXCEPT !.nd = SetAttr(nd, id, ev.k, ev.v) ], IF ev.r = "ok" THEN "" ELSE "an attribute was not set")
      [] ev.o \in {"sv", "si", "sb", "sd"} ->
            IF ~CanSet(nd, id) THEN Ok(st, IF ev.r = "libczi" THEN "" ELSE "a value was set in a node with children")
            ELSE LET t == CASE ev.o = "sb" -> (IF ev.b THEN TrueText ELSE FalseText) [] ev.o = "sd" -> ev.vt [] OTHER -> ev.v IN
                 Ok([ st EXCEPT !.nd = SetText(nd, id, t) ], IF ev.r # "ok" THEN "a value was not set: " \o ev.r ELSE IF ev.o = "sd" /\ (~Number(t).ok \/ Number(t).v # ev.v) THEN "a floating point number was written wrongly" ELSE "")
      [] ev.o = "rc" -> Ok([ st EXCEPT !.nd[id].c = << >> ], IF ev.r = "ok" THEN "" ELSE "children were not removed")
      [] ev.o = "ra" -> Ok([ st EXCEPT !.nd[id].a = AttrFn(<< >>) ], IF ev.r = "ok" THEN "" ELSE "attributes were not removed")
      [] ev.o = "rmc" -> Ok([ st EXCEPT !.nd = RemChild(nd, id, ev.nm) ], IF ev.r = "ok" /\ ev.ret = (Named(nd, id, ev.nm) # << >>) THEN "" ELSE "wrong outcome of removing a child")
      [] ev.o = "rma" -> Ok([ st EXCEPT !.nd = RemAttr(nd, id, ev.nm) ], IF ev.r = "ok" /\ ev.ret = (ev.nm \in DOMAIN nd[id].a) THEN "" ELSE "wrong outcome of removing an attribute")
      [] ev.o = "view" -> Ok(st, IF ev.r # "ok" THEN "no XML text" ELSE LET m == JReading(nd, ev, ev.md) IN IF m # "" THEN m ELSE JReading(nd, ev, ev.sm))
      [] ev.o = "tv" -> Ok(st, JTv(nd, id, ev))
      [] OTHER -> Ok(st, IF ev.r # "ok" \/ ~ev.wf THEN "the XML text is not well-formed" ELSE IF ~IsXml(nd, 1, ev.x) THEN "the XML text is not the document"
                         ELSE IF nd[1].n # Root.n THEN (IF ev.r2 = "libczi" THEN "" ELSE "a text without the root element of a document was accepted")
                         ELSE IF ev.r2 # "ok" THEN "the XML text could not be read again: " \o ev.r2 ELSE IF ~Shows(nd, 1, ev.re, TRUE) THEN "reading the XML text gives another document" ELSE "")
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = << >> /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] d == Do(s, ev) v == IF d.v # "" THEN d.v ELSE IF ev.r # "skip" /\ ~Shows(d.st.nd, 1, ev.view, FALSE) THEN "the document is not the expected one after " \o ev.o ELSE "" IN
             /\ bad' = v /\ i' = i + 1 /\ s' = d.st /\ UNCHANGED e
             /\ (v # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o v))
Spec == Init /\ [][Next]_vars
=============================================================================
