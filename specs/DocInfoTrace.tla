---------------------------- MODULE DocInfoTrace ----------------------------
(* Recorded readings and writings of document information (P27). *)
EXTENDS DocInfo, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
At(nd, c, o, what) == \* o = << >> iff the element of the class is missing
    IF nd = << >> THEN (IF o = << >> THEN "" ELSE what \o " reported although the metadata has none") ELSE IF o = << >> THEN what \o " is not reported" ELSE FieldsBad(c, nd[1], o[1])
ChanBad(nd, o, cls) ==
    IF nd = << >> THEN (IF o = << >> THEN "" ELSE "channels reported although the metadata has none")
    ELSE IF o = << >> THEN "channels are not reported"
    ELSE LET k == Kids(nd[1], "Channel") IN
         IF Len(o[1]) # Len(k) THEN "wrong number of channels"
         ELSE LET X(p) == IF o[1][p]["@Id"] # Attr(k[p], "Id") \/ o[1][p]["@Name"] # Attr(k[p], "Name") THEN "Id or Name of a channel is not reported as stated" ELSE FieldsBad(cls, k[p], o[1][p])
                  b == { p \in 1..Len(k) : X(p) # "" } IN IF b = {} THEN "" ELSE X(CHOOSE p \in b : TRUE)
Dims == << "Z", "C", "T", "R", "S", "I", "H", "V", "B" >>
IntOf(k, df) == IF k = << >> THEN df ELSE k[1].v.i
DimBad(im, o) ==
    LET X(d) == LET st == IF im = << >> THEN << >> ELSE Kid(im[1], "Start" \o d) sz == IF im = << >> THEN << >> ELSE Kid(im[1], "Size" \o d)
                    r == SelectSeq(o.dims, LAMBDA q : q[1] = d) IN
                IF st = << >> /\ sz = << >> THEN (IF r = << >> /\ \E p \in 1..Len(o.nodim) : o.nodim[p] = d THEN "" ELSE "dimension " \o d \o " reported although the metadata does not state it")
                ELSE IF r = << << d, IntOf(st, 0), IntOf(st, 0) + IntOf(sz, 1), st # << >>, sz # << >> >> >> /\ ~\E p \in 1..Len(o.nodim) : o.nodim[p] = d THEN "" ELSE "dimension " \o d \o " is not reported as stated"
        b == { p \in 1..9 : X(Dims[p]) # "" } IN IF b = {} THEN "" ELSE X(Dims[CHOOSE p \in b : TRUE])
ScBad(sc, o) ==
    LET X(d) == LET k == IF sc = << >> THEN << >> ELSE LET it == Kid(sc[1], "Items") IN IF it = << >> THEN << >> ELSE SelectSeq(Kids(it[1], "Distance"), LAMBDA q : Attr(q, "Id") = << d >>) IN
                IF k = << >> THEN (IF o.sc[d].Value = << >> /\ o.sc[d].DefaultUnitFormat = << >> /\ o.s2[d] = << >> THEN "" ELSE "scaling reported although the metadata does not state it")
                ELSE LET t == FieldsBad("Distance", k[1], o.sc[d]) IN IF t # "" THEN "scaling: " \o t ELSE IF o.s2[d] # o.sc[d].Value THEN "the two kinds of scaling information differ" ELSE ""
    IN IF X("X") # "" THEN X("X") ELSE IF X("Y") # "" THEN X("Y") ELSE X("Z")
JudgeInfo(ev) ==
    IF ev.r # "ok" THEN "reading document information failed: " \o ev.r
    ELSE LET o == ev.q root == ev.tree
             im == Walk(root, << "Metadata", "Information", "Image" >>)
             dc == Walk(root, << "Metadata", "Information", "Document" >>)
             dn == Walk(root, << "Metadata", "Information", "Image", "Dimensions" >>)
             sub(n) == IF dn = << >> THEN << >> ELSE Kid(dn[1], n)
             j == << IF ~o.valid THEN "the XML is not considered valid" ELSE "",
                     IF dc = << >> THEN (IF \A f \in DOMAIN o.doc : o.doc[f] = << >> THEN "" ELSE "document information reported although the metadata has none") ELSE FieldsBad("Document", dc[1], o.doc),
                     ScBad(Walk(root, << "Metadata", "Scaling" >>), o), DimBad(im, o), At(sub("Z"), "Z", o.z, "Z information"), At(sub("T"), "T", o.t, "T information"),
                     ChanBad(sub("Channels"), o.ch, "Channel"), IF o.out THEN "a channel was returned for an index out of range" ELSE "" >>
             b == { p \in 1..Len(j) : j[p] # "" } IN IF b = {} THEN "" ELSE j[CHOOSE p \in b : \A y \in b : p <= y]
(* ---- the same through the C interface ---- *)
JudgeC(ev) ==
    IF ev.r # "ok" THEN "the C interface: reading document information failed"
    ELSE IF ev.q.bad # << >> THEN "the C interface: the text of the " \o ev.q.bad[1] \o " is not JSON"
    ELSE LET o == ev.q root == ev.tree
             im == Walk(root, << "Metadata", "Information", "Image" >>)
             dc == Walk(root, << "Metadata", "Information", "Document" >>)
             dn == Walk(root, << "Metadata", "Information", "Image", "Dimensions" >>)
             sc == Walk(root, << "Metadata", "Scaling", "Items" >>)
             sub(n) == IF dn = << >> THEN << >> ELSE Kid(dn[1], n)
             sval(d) == LET k == IF sc = << >> THEN << >> ELSE SelectSeq(Kids(sc[1], "Distance"), LAMBDA q : Attr(q, "Id") = << d >>) IN IF k = << >> THEN << >> ELSE LET v == Kid(k[1], "Value") IN IF v = << >> THEN << >> ELSE << Num(v[1].v.m, v[1].v.x) >>
             there(d) == im # << >> /\ (Kid(im[1], "Start" \o d) # << >> \/ Kid(im[1], "Size" \o d) # << >>)
             j == << IF dc = << >> THEN (IF \A f \in (DOMAIN o.doc) \ {"#"} : o.doc[f] = << >> THEN "" ELSE "document information reported although the metadata has none") ELSE FieldsBad("Document", dc[1], o.doc),
                     IF \E d \in {"X", "Y", "Z"} : o.s2[d] # sval(d) THEN "scaling is not reported as stated" ELSE "",
                     IF { o.dims[p] : p \in 1..Len(o.dims) } # { Dims[p] : p \in { q \in 1..9 : there(Dims[q]) } } \/ Cardinality({ o.dims[p] : p \in 1..Len(o.dims) }) # Len(o.dims) THEN "the dimensions are not reported as stated" ELSE "",
                     At(sub("Z"), "ZC", o.z, "Z information"), At(sub("T"), "TC", o.t, "T information"), ChanBad(sub("Channels"), o.ch, "ChannelC") >>
             b == { p \in 1..Len(j) : j[p] # "" } IN IF b = {} THEN "" ELSE "the C interface: " \o j[CHOOSE p \in b : \A y \in b : p <= y]
(* ---- writing: s = what has been written so far ---- *)
S0 == [ doc |-> [ f \in { TDocument[p][1] : p \in 1..8 } |-> << >> ], sc |-> [ d \in {"X", "Y", "Z"} |-> << >> ], un |-> [ d \in {"X", "Y", "Z"} |-> "" ], raw |-> << >>, kv |-> {} ]
RawKeys == { "SizeX", "SizeY", "SizeM", "SizeZ", "SizeC", "SizeT", "SizeR", "SizeS", "SizeI", "SizeH", "SizeV", "SizeB", "T/StartTime", "T/Positions/Interval/Start", "T/Positions/Interval/Increment",
             "T/Positions/List/Offsets", "Z/StartPosition", "Z/Positions/Interval/Start", "Z/Positions/Interval/Increment", "Z/Positions/List/Offsets" }
SetAll(f, g) == [ k \in (DOMAIN f) \cup (DOMAIN g) |-> IF k \in DOMAIN g THEN g[k] ELSE f[k] ]
N1(v) == << "n", << Num(v[1], v[2]) >> >>
One(key, v) == IF v = << >> THEN << >> ELSE (key :> N1(v))
IntV(n) == << "n", << Num(n, 0) >> >>
RECURSIVE DimSet(_)
DimSet(l) == IF l = << >> THEN << >> ELSE SetAll(("Size" \o l[1][1]) :> IntV(l[1][3]), DimSet(Tail(l)))
NewRaw(ev) ==
    CASE ev.o = "wt" -> SetAll(IF ev.t = << >> THEN << >> ELSE "T/StartTime" :> << "s", DateStr(ev.t) >>, IF ev.iv THEN SetAll(One("T/Positions/Interval/Start", ev.s), One("T/Positions/Interval/Increment", ev.n)) ELSE "T/Positions/List/Offsets" :> << "n", Nums(ev.l) >>)
      [] ev.o = "wz" -> SetAll(One("Z/StartPosition", ev.p), IF ev.iv THEN SetAll(One("Z/Positions/Interval/Start", ev.s), One("Z/Positions/Interval/Increment", ev.n)) ELSE "Z/Positions/List/Offsets" :> << "n", Nums(ev.l) >>)
      [] ev.o = "wsize" -> SetAll("SizeX" :> IntV(ev.w), "SizeY" :> IntV(ev.h))
      [] ev.o = "wm" -> "SizeM" :> IntV(ev.m)
      [] ev.o = "wdim" -> ("Size" \o ev.d) :> IntV(ev.n)
      [] ev.o = "wstat" -> SetAll(SetAll("SizeX" :> IntV(ev.w), "SizeY" :> IntV(ev.h)), SetAll(DimSet(ev.dims), IF ev.m = << >> THEN << >> ELSE "SizeM" :> IntV(ev.m[2] - ev.m[1] + 1)))
      [] OTHER -> << >>
Step(x, ev) ==
    IF ev.o = "wkv" THEN [ x EXCEPT !.kv = IF ev.r = "ok" THEN x.kv \cup {ev.key} ELSE x.kv ]
    ELSE IF ev.o = "wdoc" THEN [ x EXCEPT !.doc = [ f \in DOMAIN x.doc |-> IF ev.f[f] = << >> \/ (ev.via = 0 /\ f # "Rating" /\ ev.f[f] = << "" >>) \/ (ev.via = 0 /\ f = "Rating" /\ ev.f[f][1] < 0) THEN x.doc[f] ELSE ev.f[f] ] ]
    ELSE IF ev.o = "wscale" THEN [ x EXCEPT !.sc = [ d \in DOMAIN x.sc |-> IF ev[d] = << >> THEN x.sc[d] ELSE << Num(ev[d][1], ev[d][2]) >> ], !.un = [ d \in DOMAIN x.un |-> IF ev.ex /\ ev["U" \o d] # "" THEN ev["U" \o d] ELSE x.un[d] ] ]
    ELSE [ x EXCEPT !.raw = SetAll(x.raw, NewRaw(ev)) ]
RawBad(x, ev) ==
    LET b == { k \in RawKeys : LET o == ev.raw[k] IN IF k \notin DOMAIN x.raw THEN o # << >>
               ELSE LET w == x.raw[k] IN IF w[1] = "n" /\ w[2] = << >> THEN o # << >> /\ (o[1].n # << >> \/ o[1].rest) ELSE o = << >> \/ (IF w[1] = "s" THEN o[1].s # w[2] ELSE o[1].rest \/ o[1].n # w[2]) } IN
    IF b = {} THEN "" ELSE (CHOOSE k \in b : TRUE) \o " does not contain what was written"
KvBad(ev) ==
    LET o == ev.raw.kv IN
    IF o = << >> THEN (IF ev.t = "String" /\ ev.s = "" THEN "" ELSE "the custom value is not found")
    ELSE IF o[1].type # ev.t THEN "wrong type of a custom value"
    ELSE CASE ev.t = "Int32" -> IF o[1].s # ToString(ev.i) THEN "wrong custom value" ELSE ""
           [] ev.t = "Boolean" -> IF o[1].s # (IF ev.b THEN "true" ELSE "false") THEN "wrong custom value" ELSE ""
           [] ev.t = "String" -> IF o[1].s # ev.s THEN "wrong custom value" ELSE ""
           [] ev.t = "Double" -> IF o[1].rest \/ o[1].n # << Num(ev.d[1], ev.d[2]) >> THEN "wrong custom value" ELSE ""
           [] OTHER -> ""
JudgeW(x, ev) ==
    LET y == Step(x, ev) IN
    IF ev.o = "wkv" /\ ev.ok = 0 THEN (IF ev.r = "ok" THEN "an invalid custom key or value was accepted" ELSE "")
    ELSE IF ev.r # "ok" THEN "writing document information failed: " \o ev.r
    ELSE IF ev.r2 # "ok" THEN "reading written document information failed: " \o ev.r2
    ELSE IF \E f \in DOMAIN y.doc : ev.q.doc[f] # y.doc[f] THEN (CHOOSE f \in DOMAIN y.doc : ev.q.doc[f] # y.doc[f]) \o " is not read back as written"
    ELSE IF \E d \in DOMAIN y.sc : ev.q.sc[d].Value # y.sc[d] \/ ev.q.sc[d].DefaultUnitFormat # (IF y.un[d] = "" THEN << >> ELSE << y.un[d] >>) THEN "scaling is not read back as written"
    ELSE IF \E p \in 1..9 : LET k == "Size" \o Dims[p] r == SelectSeq(ev.q.dims, LAMBDA q : q[1] = Dims[p]) IN (k \in DOMAIN y.raw) # (r # << >>) THEN "a dimension is not read back as written"
    ELSE IF ev.o = "wkv" /\ ev.raw.kvn # Cardinality(y.kv) THEN "wrong number of custom values"
    ELSE IF ev.o = "wkv" /\ KvBad(ev) # "" THEN KvBad(ev) ELSE RawBad(y, ev)
Judge(x, ev) == IF ev.o = "info" THEN JudgeInfo(ev) ELSE IF ev.o = "cinfo" THEN JudgeC(ev) ELSE JudgeW(x, ev)
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = S0 /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] v == Judge(s, ev) IN
             /\ bad' = v /\ i' = i + 1 /\ s' = (IF ev.o \in {"info", "cinfo"} THEN s ELSE Step(s, ev)) /\ UNCHANGED e
             /\ (v # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o v))
Spec == Init /\ [][Next]_vars
=============================================================================
