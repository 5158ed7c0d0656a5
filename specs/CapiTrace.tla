------------------------------ MODULE CapiTrace ------------------------------
(* Histories of calls of the C interface.  The first event describes the documents as the C++ interface shows them. *)
EXTENDS Capi, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
Flag(ev, f) == f \in DOMAIN ev /\ ev[f]
InR(q, n) == n >= 0 /\ n < Len(q)
Count(q, v) == Cardinality({ n \in 1..Len(q) : q[n] = v })
SameBag(p, q) == Len(p) = Len(q) /\ \A n \in 1..Len(p) : Count(p, p[n]) = Count(q, p[n])
Min2(a, b) == IF a < b THEN a ELSE b
\* ---- what a call has to deliver: [ok: must it succeed? 1 yes, 0 no, 2 either; b: content of a new bitmap; str; any: the text is not judged]
Yes(t) == [ok |-> 1, str |-> t, b |-> << "?", "?" >>]
No == [ok |-> 0, str |-> "", b |-> << "?", "?" >>]
Either == [ok |-> 2, str |-> "", b |-> << "?", "?" >>]
If(c, x) == IF c THEN x ELSE No
Text(t) == IF t = "none" THEN No ELSE Yes(t)
Failing(st, r) == r.x \in st.fail
AllBm(st, ev) == \A n \in 1..Len(ev.hs) : Good(st.H, ev.hs[n], "bm")
Expect(st, ev) ==
    LET o == ev.o need == Needs(o) h == IF need = "none" THEN 0 ELSE ev.h IN
    IF need # "none" /\ ~Good(st.H, h, need) THEN No
    ELSE IF Flag(ev, "nul") THEN No
    ELSE LET r == IF need = "none" THEN Rec("none") ELSE st.H[h]
             isdoc == r.d >= 0
             D == st.docs[r.d + 1]
         IN
    CASE o = "mkrd" -> Yes("")
      [] o = "mkin" -> If(~(Flag(ev, "missing") /\ ev.k # "ext") /\ ~Flag(ev, "nulst") /\ ~Flag(ev, "badclass") /\ ~Flag(ev, "badbag"), Yes(""))
      [] o = "mkos" -> If(~Flag(ev, "nulst"), Yes(""))
      [] o = "mkwr" -> Yes("")
      [] o = "misc" -> Yes(ev.exp)
      [] o = "fail" -> Yes("")
      [] o = "dump" -> Yes("")
      [] o = "open" -> If(Good(st.H, ev.s, "in") /\ ~isdoc /\ st.H[ev.s].x \notin st.fail, Yes(""))
      [] o = "comp" -> If(~Flag(ev, "zero") /\ Len(ev.hs) > 0 /\ AllBm(st, ev) /\ ev.exp[1] # "refused", [Yes("") EXCEPT !.b = ev.exp])
      [] need = "rd" /\ ~isdoc -> No
      [] o = "hdr" -> Yes(D.hdr)
      [] o = "stat" -> Yes(D.stat)
      [] o = "statx" -> Yes(D.stat)
      [] o = "pyr" -> Yes(D.pyr)
      [] o = "rsb" -> (IF ~InR(D.subs, ev.i) THEN Either ELSE If(~Failing(st, r), Yes("")))
      [] o = "rat" -> (IF ~InR(D.atts, ev.i) THEN Either ELSE If(~Failing(st, r), Yes("")))
      [] o = "gmd" -> If(D.xml # "none" /\ ~Failing(st, r), Yes(""))
      [] o = "atn" -> Yes("")
      [] o = "ati" -> If(InR(D.atts, ev.i), Yes(D.atts[ev.i + 1].info))
      [] o = "sbi" -> If(InR(D.subs, ev.i), Yes(D.subs[ev.i + 1].info))
      [] o = "cacc" -> Yes("")
      [] o = "cbm" -> [Yes("") EXCEPT !.b = D.subs[r.i + 1].bm]
      [] o = "sbinfo" -> Yes(D.subs[r.i + 1].info)
      [] o = "sbraw" -> If(ev.t \in {0, 1}, Yes(""))
      [] o = "atinfo" -> Yes(D.atts[r.i + 1].info)
      [] o = "atraw" -> Yes("")
      [] o = "bminfo" -> Yes(r.b[1])
      [] o = "lock" -> Yes(r.b[2])
      [] o = "peek" -> If(r.l > 0, Yes(r.b[2]))
      [] o = "unlock" -> If(r.l > 0, Yes(""))
      [] o = "copy" -> If(ev.dw = 0 /\ ev.dh = 0 /\ ~ev.dpt /\ ev.sok, Yes(r.b[2]))
      [] o = "xml" -> (IF D.xml = "0:0" THEN Either ELSE Yes(D.xml))   \* empty metadata: the file has no text to give
      [] o = "cdi" -> If(D.di, Yes(""))
      [] o = "gen" -> Yes(D.gen)
      [] o = "scal" -> Yes(D.scal)
      [] o = "dims" -> If(ev.cap >= Len(D.dims) + 1, Yes(""))
      [] o = "gds" -> If(D.ds, Yes(""))
      [] o = "dimi" -> (CASE ev.i = 1 -> Text(D.d1) [] ev.i = 2 -> Text(D.d2) [] ev.i = 3 -> Text(D.d3) [] OTHER -> No)
      [] o = "cds" -> If(InR(D.ch, ev.i) /\ D.ch[ev.i + 1][1] # "none", Yes(""))
      [] o = "fill" -> If(InR(D.ch, ev.i) /\ D.ch[ev.i + 1][1] # "none", Yes(D.ch[ev.i + 1][IF ev.w16 THEN 2 ELSE 1]))
      [] o = "csize" -> Yes(ev.exp)
      [] o = "get" -> (LET x == ev.exp[r.d + 1] IN
            IF x[1] = "refused" THEN No
            ELSE LET y == [Yes("") EXCEPT !.b = IF Flag(ev, "noopt") THEN << x[1], "?" >> ELSE x] IN IF Failing(st, r) THEN [y EXCEPT !.ok = 2] ELSE y)
      [] o = "create" -> If(Good(st.H, ev.s, "os") /\ r.w.st = 0, Yes(""))
      [] o = "addsb" -> If(r.w.st = 1 /\ ~(ev.cmp = 0 /\ ev.dn < 0) /\ (ev.key \in r.w.keys => r.w.dup), Yes(""))
      [] o = "addatt" -> If(r.w.st = 1, Yes(""))
      [] o = "wmeta" -> If(r.w.st = 1, Yes(""))
      [] o = "wclose" -> If(r.w.st = 1, Yes(""))
      [] o = "rel" -> If(Releasable(st.H, ev.h, ev.k), Yes(""))
\* ---- further conditions on a successful call
Raw(ev, v) ==
    IF ev.n # Len(v) THEN "the size of raw data is wrong"
    ELSE IF \E n \in 1..ev.cap : ev.d[n] # (IF ~ev.nd /\ n <= Len(v) THEN v[n] ELSE 238) THEN "raw data are not the object's, or bytes beyond the buffer changed" ELSE ""
Extra(st, ev) ==
    LET o == ev.o IN
    CASE o = "statx" -> (LET sc == st.docs[st.H[ev.h].d + 1].scenes cap == IF ev.nc THEN 0 ELSE ev.cap k == Min2(Len(sc), IF cap < 0 THEN 0 ELSE cap) IN
            IF ev.sc # SubSeq(sc, 1, k) THEN "the per-scene boxes are wrong" ELSE IF ~ev.nc /\ ev.n # Len(sc) THEN "the number of scenes is wrong" ELSE "")
      [] o = "atn" -> (IF ev.n # Len(st.docs[st.H[ev.h].d + 1].atts) THEN "the number of attachments is wrong" ELSE "")
      [] o = "sbraw" -> (LET b == st.docs[st.H[ev.h].d + 1].subs[st.H[ev.h].i + 1] IN Raw(ev, IF ev.t = 0 THEN b.data ELSE b.meta))
      [] o = "atraw" -> Raw(ev, st.docs[st.H[ev.h].d + 1].atts[st.H[ev.h].i + 1].data)
      [] o = "lock" -> (IF ~ev.szok THEN "the locked memory is too small" ELSE "")
      [] o = "copy" -> (IF ~ev.pok THEN "copying a bitmap changed bytes outside of its lines" ELSE "")
      [] o = "dims" -> (LET d == st.docs[st.H[ev.h].d + 1].dims IN IF \E n \in 1..Len(d) : ev.d[n] # d[n] THEN "the list of dimensions is wrong" ELSE IF ev.d[Len(d) + 1] # 0 THEN "the list of dimensions is not terminated" ELSE "")
      [] o = "dump" -> (LET w == st.dead[ev.w] IN
            IF ev.r # "ok" THEN "the written file cannot be read: " \o ev.r
            ELSE IF ~SameBag(ev.subs, w.subs) THEN "the written file does not hold the sub-blocks that were added"
            ELSE IF ~SameBag(ev.atts, w.atts) THEN "the written file does not hold the attachments that were added"
            ELSE IF ev.md # w.md THEN "the written file does not hold the metadata"
            ELSE IF w.guid >= 0 /\ ev.guid # ToString(w.guid) THEN "the written file has another GUID" ELSE "")
      [] OTHER -> ""
\* ---- the handle table after a successful call
NewRec(st, ev, x) ==
    LET k == Makes(ev.o) r == IF Needs(ev.o) = "none" THEN Rec("none") ELSE st.H[ev.h] IN
    CASE k = "rd" -> Rec(k)
      [] k = "in" -> [Rec(k) EXCEPT !.d = ev.d, !.x = IF ev.k = "ext" THEN st.nx ELSE -1]
      [] k = "os" -> [Rec(k) EXCEPT !.x = IF ev.k = "ext" THEN st.nx ELSE -1]
      [] k = "wr" -> [Rec(k) EXCEPT !.w.dup = (ev.opt % 7) = 2]
      [] k \in {"sb", "at"} -> [Rec(k) EXCEPT !.d = r.d, !.i = ev.i]
      [] k = "bm" -> [Rec(k) EXCEPT !.b = x.b]
      [] k = "ac" -> [Rec(k) EXCEPT !.d = r.d, !.x = r.x]
      [] OTHER -> [Rec(k) EXCEPT !.d = r.d]
Done(st, ev, x) ==
    LET H == st.H o == ev.o IN
    CASE Makes(o) # "none" -> (IF ev.hv # "set" THEN st ELSE [st EXCEPT !.H = Add(H, ev.id, NewRec(st, ev, x)), !.nx = IF o \in {"mkin", "mkos"} /\ ev.k = "ext" THEN @ + 1 ELSE @])
      [] o = "open" -> [st EXCEPT !.H[ev.h].d = H[ev.s].d, !.H[ev.h].x = H[ev.s].x]
      [] o = "lock" -> [st EXCEPT !.H[ev.h].l = @ + 1]
      [] o = "unlock" -> [st EXCEPT !.H[ev.h].l = @ - 1]
      [] o = "rel" -> [st EXCEPT !.H = Drop(H, ev.h)]
      [] o = "fail" -> [st EXCEPT !.fail = IF ev.on THEN @ \cup {ev.x} ELSE @ \ {ev.x}]
      [] o = "create" -> [st EXCEPT !.H[ev.h].w.st = 1, !.H[ev.h].w.guid = IF "guid" \in DOMAIN ev /\ "js" \notin DOMAIN ev THEN ev.guid ELSE -1, !.H[ev.h].x = H[ev.s].x]
      [] o = "addsb" -> [st EXCEPT !.H[ev.h].w.subs = Append(@, ev.item), !.H[ev.h].w.keys = @ \cup {ev.key}]
      [] o = "addatt" -> [st EXCEPT !.H[ev.h].w.atts = Append(@, ev.item)]
      [] o = "wmeta" -> [st EXCEPT !.H[ev.h].w.md = ev.item]
      [] o = "wclose" -> [st EXCEPT !.H[ev.h].w.st = 2, !.H[ev.h].x = -1, !.dead = [j \in DOMAIN @ \cup {ev.h} |-> IF j = ev.h THEN H[ev.h].w ELSE @[j]]]
      [] OTHER -> st
\* external streams: closed at most once, not while needed, not used afterwards, and closed in the end
Streams(st, ev) ==
    IF \E x \in 1..Len(ev.cl) : ev.cl[x] >= 100 THEN "an external stream was used after it was closed or with another one's handles"
    ELSE IF \E x \in 1..Len(ev.cl) : ev.cl[x] > 1 THEN "an external stream was closed twice"
    ELSE IF \E x \in 1..Len(ev.cl) : Needed(st.H, x - 1) /\ ev.cl[x] # 0 THEN "an external stream was closed while it was in use"
    ELSE IF DOMAIN st.H = {} /\ \E x \in 1..Len(ev.cl) : ev.cl[x] # 1 THEN "an external stream was not closed after everything was released" ELSE ""
BadHandle(st, ev) == (Needs(ev.o) # "none" /\ ~Good(st.H, ev.h, Needs(ev.o))) \/ (ev.o = "rel" /\ ~Good(st.H, ev.h, ev.k))
Judge(st, ev) ==
    IF ev.o = "docs" \/ Flag(ev, "gone") THEN ""
    ELSE LET x == Expect(st, ev) mk == Makes(ev.o) # "none" done == ev.rc = 0 st2 == IF done THEN Done(st, ev, x) ELSE st IN
    IF ev.rc < 0 THEN "no result"
    ELSE IF BadHandle(st, ev) /\ ev.rc \notin {1, 2} THEN "a null handle or a handle of another kind is not refused as such: " \o ToString(ev.rc)
    ELSE IF x.ok = 0 /\ done THEN "a call succeeded which must be refused"
    ELSE IF x.ok = 1 /\ ~done THEN "a call failed: " \o ToString(ev.rc)
    ELSE IF mk /\ ev.hv = "set" /\ ~done THEN "a failing call issued a handle"
    ELSE IF mk /\ done /\ x.ok = 1 /\ (ev.hv # "set" \/ ev.dup) THEN "no handle of its own was issued"
    ELSE IF mk /\ done /\ ev.o \in {"rsb", "rat"} /\ x.ok = 2 /\ ev.hv # "zero" THEN "a handle for an item that does not exist"
    ELSE IF done /\ x.ok = 1 /\ ~mk /\ x.str # "?" /\ x.str # "" /\ ev.str # x.str THEN "the result differs from the C++ interface's: " \o ev.str \o " instead of " \o x.str
    ELSE IF done /\ x.ok # 0 /\ Extra(st, ev) # "" THEN Extra(st, ev)
    ELSE IF ~done /\ ev.o = "copy" /\ ~ev.pok THEN "a refused copy wrote to the buffer"
    ELSE Streams(st2, ev)
After(st, ev) == IF ev.o = "docs" THEN [st EXCEPT !.docs = ev.docs] ELSE IF Flag(ev, "gone") THEN st ELSE IF ev.rc = 0 THEN Done(st, ev, Expect(st, ev)) ELSE st
Start == [docs |-> << >>, H |-> << >>, nx |-> 0, fail |-> {}, dead |-> << >>]
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = Start /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] v == Judge(s, ev) IN
             /\ bad' = v /\ i' = i + 1 /\ s' = (IF v = "" THEN After(s, ev) ELSE s) /\ UNCHANGED e
             /\ (v # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o v))
Spec == Init /\ [][Next]_vars
=============================================================================
