------------------------------ MODULE DocTrace ------------------------------
(* Conformance of recorded writer / editor / reader histories with CziDoc.     *)
(* Every episode of $TRACE is one behaviour of the real library; the abstract  *)
(* document is advanced by each accepted call and every observation the        *)
(* library makes is compared with the abstract document.                       *)
(* $PROP selects the property whose clauses are judged.                        *)
EXTENDS CziDoc, TLC, Json, IOUtils

Eps == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES e, i, s, bad
vars == <<e, i, s, bad>>

NoDoc == [ k |-> "none", sbs |-> << >>, atts |-> << >>, meta |-> NoMeta, g |-> 0, by |-> "", metas |-> {} ]
W0 == [ st |-> "none", dup |-> FALSE, hb |-> FALSE, bounds |-> << >>, hmb |-> FALSE, mb |-> << >>, g |-> 0,
        sbs |-> << >>, atts |-> << >>, meta |-> NoMeta, mq |-> FALSE, metas |-> {} ]
E0 == [ st |-> "none", keys |-> << >>, sbs |-> << >>, unk |-> {}, akeys |-> << >>, atts |-> << >>, aunk |-> {}, meta |-> NoMeta, mq |-> FALSE, g |-> 0 ]
R0 == [ st |-> "none", bound |-> FALSE, keys |-> << >>, infos |-> << >>, akeys |-> << >>, ainfos |-> << >>, doc |-> NoDoc, frame |-> 0 ]
S0 == [ f |-> NoDoc, w |-> W0, e |-> E0, r |-> R0 ]

Ok(ev) == ev.r = "ok"
Hit(ev) == "fh" \in DOMAIN ev /\ ev.fh > 0
Unhit(ev) == ~Hit(ev)
IsDoc(ss) == ss.f.k = "doc"

(* ---------- what the library must decide ---------- *)
WAccepts(w, it) == /\ ArgOk(it)
                   /\ InBounds(Info(it), w.hb, w.bounds, w.hmb, w.mb)
                   /\ w.dup \/ ~\E n \in DOMAIN w.sbs : WriterDup(w.sbs[n].i, Info(it))
AttAccepts(atts, ev) == ~ev.nulp /\ ~\E n \in DOMAIN atts : atts[n].i = Att(ev.at).i
EAccepts(x, it) == ArgOk(it) /\ ~\E n \in DOMAIN x.sbs : EditorDup(x.sbs[n].i, Info(it))
KeyPos(keys, k) == IF \E n \in DOMAIN keys : keys[n] = k THEN CHOOSE n \in DOMAIN keys : keys[n] = k ELSE 0

(* ---------- observations ---------- *)
ObsItem(o) == [ i |-> o.i, d |-> o.d, md |-> o.md, at |-> o.at ]
ObsAtt(o) == [ i |-> o.i, d |-> o.d ]
DumpItems(ev) == [ n \in DOMAIN ev.sbs |-> ObsItem(ev.sbs[n]) ]
DumpAtts(ev) == [ n \in DOMAIN ev.atts |-> ObsAtt(ev.atts[n]) ]
ReadsOk(ev) == (\A n \in DOMAIN ev.sbs : ev.sbs[n].r = "ok" /\ ev.sbs[n].s = ev.sbs[n].i)
            /\ (\A n \in DOMAIN ev.atts : ev.atts[n].r = "ok" /\ ev.atts[n].s = ev.atts[n].i)
DocDiff(ev, d, editor) ==
    IF ~Ok(ev) THEN "document cannot be read back: " \o ev.r
    ELSE IF ~ReadsOk(ev) THEN "an item of the document cannot be read back"
    ELSE IF ~SameBag(DumpItems(ev), d.sbs) THEN
        (IF ~SameBag(SMap(LAMBDA o : o.i, DumpItems(ev)), SMap(LAMBDA o : o.i, d.sbs)) THEN "subblock set differs from what was written" ELSE "subblock content differs from what was written")
    ELSE IF ~SameBag(DumpAtts(ev), d.atts) THEN "attachments differ from what was written"
    ELSE IF ev.nat # Len(d.atts) THEN "attachment count differs"
    ELSE IF d.meta.has /\ ev.mr # "ok" THEN "metadata cannot be read back: " \o ev.mr
    ELSE IF ev.meta # d.meta THEN "metadata differs from what was written"
    ELSE IF ~d.meta.has /\ ~editor /\ ev.mr = "ok" THEN "metadata reported although none was written"
    ELSE IF d.g # 0 /\ ev.g # d.g THEN "document id differs from the one given"
    ELSE ""
(* items whose last replace/remove was interrupted by an I/O fault are not judged *)
LooseDiff(ev, x) ==
    IF ~Ok(ev) THEN "document cannot be read back: " \o ev.r
    ELSE LET keep == { n \in DOMAIN x.sbs : x.keys[n] \notin x.unk }
             akeep == { n \in DOMAIN x.atts : x.akeys[n] \notin x.aunk } IN
         IF \E n \in keep : ~\E k \in DOMAIN ev.sbs : ev.sbs[k].r = "ok" /\ ObsItem(ev.sbs[k]) = x.sbs[n] THEN "an item untouched by the failed operation was lost"
         ELSE IF \E n \in akeep : ~\E k \in DOMAIN ev.atts : ev.atts[k].r = "ok" /\ ObsAtt(ev.atts[k]) = x.atts[n] THEN "an attachment untouched by the failed operation was lost"
         ELSE IF Len(ev.sbs) > Len(x.sbs) \/ Len(ev.atts) > Len(x.atts) THEN "an item appeared from a failed operation"
         ELSE ""

(* state the editor reports: keys and infos *)
EdInfos(ev) == { << ev.sbs[n].k, ev.sbs[n].i >> : n \in DOMAIN ev.sbs }
(* items whose replace/remove was hit by a fault are unknown and not judged *)
EdDiffU(ev, x) ==
    IF ev.er # "ok" THEN "editor state cannot be queried: " \o ev.er
    ELSE IF { << ev.sbs[n].k, ev.sbs[n].i >> : n \in { j \in DOMAIN ev.sbs : ev.sbs[j].k \notin x.unk } } # { << x.keys[n], x.sbs[n].i >> : n \in { j \in DOMAIN x.sbs : x.keys[j] \notin x.unk } }
         THEN "a failed operation changed the set of subblocks the editor reports"
    ELSE IF { << ev.atts[n].k, ev.atts[n].i >> : n \in { j \in DOMAIN ev.atts : ev.atts[j].k \notin x.aunk } } # { << x.akeys[n], x.atts[n].i >> : n \in { j \in DOMAIN x.atts : x.akeys[j] \notin x.aunk } }
         THEN "a failed operation changed the set of attachments the editor reports"
    ELSE ""
EdAtts(ev) == { << ev.atts[n].k, ev.atts[n].i >> : n \in DOMAIN ev.atts }
ModInfos(x) == { << x.keys[n], x.sbs[n].i >> : n \in DOMAIN x.sbs }
ModAtts(x) == { << x.akeys[n], x.atts[n].i >> : n \in DOMAIN x.atts }

(* ---------- the abstract step ---------- *)
StepW(ss, ev) ==
    LET w == ss.w IN
    CASE ev.op = "w_new" -> [ss EXCEPT !.w = [W0 EXCEPT !.st = "init", !.dup = ev.dup]]
      [] ev.op = "w_create" -> IF Ok(ev)
            THEN [ss EXCEPT !.w = [W0 EXCEPT !.st = "op", !.dup = w.dup, !.hb = ev.hb /\ ~ev.noinfo, !.bounds = ev.bounds, !.hmb = ev.hmb, !.mb = ev.mb,
                                          !.g = IF ev.noinfo THEN 0 ELSE ev.g], !.f = [NoDoc EXCEPT !.k = "wip"]]
            ELSE [ss EXCEPT !.f = IF w.st = "op" THEN ss.f ELSE [NoDoc EXCEPT !.k = "any"]]
      [] ev.op = "w_add" -> IF Ok(ev) THEN [ss EXCEPT !.w.sbs = Append(@, Item(ev.it))] ELSE ss
      [] ev.op = "w_att" -> IF Ok(ev) THEN [ss EXCEPT !.w.atts = Append(@, Att(ev.at))] ELSE ss
      [] ev.op = "w_meta" -> IF Ok(ev) THEN [ss EXCEPT !.w.meta = [has |-> TRUE, d |-> ev.d, a |-> ev.a], !.w.metas = @ \union { [has |-> TRUE, d |-> ev.d, a |-> ev.a] }, !.w.mq = FALSE] ELSE IF Hit(ev) THEN [ss EXCEPT !.w.mq = TRUE] ELSE ss
      [] ev.op = "w_close" -> IF Ok(ev)
            THEN [ss EXCEPT !.w = [W0 EXCEPT !.st = "init", !.dup = w.dup],
                            !.f = [k |-> IF w.mq THEN "docmq" ELSE "doc", sbs |-> w.sbs, atts |-> w.atts, meta |-> w.meta, g |-> w.g, by |-> "w", metas |-> w.metas]]
            ELSE IF w.st = "op" THEN [ss EXCEPT !.f.k = "any"] ELSE ss
      [] OTHER -> ss
StepE(ss, ev) ==
    LET x == ss.e IN
    CASE ev.op = "e_new" -> [ss EXCEPT !.e = [E0 EXCEPT !.st = "init"]]
      [] ev.op = "e_create" -> IF ~Ok(ev) THEN (IF Hit(ev) \/ (x.st = "init" /\ ss.f.k \notin {"doc", "none"}) THEN [ss EXCEPT !.f.k = "any"] ELSE ss)
            ELSE LET dd == ev.dump IN
                 [ss EXCEPT !.e = [E0 EXCEPT !.st = "op",
                        !.keys = [n \in DOMAIN dd.sbs |-> dd.sbs[n].k], !.sbs = DumpItems(dd),
                        !.akeys = [n \in DOMAIN dd.atts |-> dd.atts[n].k], !.atts = DumpAtts(dd),
                        !.unk = { dd.sbs[n].k : n \in { j \in DOMAIN dd.sbs : dd.sbs[j].r # "ok" } }, !.aunk = { dd.atts[n].k : n \in { j \in DOMAIN dd.atts : dd.atts[j].r # "ok" } },
                        !.meta = dd.meta, !.g = IF ss.f.k = "none" \/ ev.force THEN ev.g ELSE ss.f.g],
                        !.f = [ss.f EXCEPT !.k = IF ss.f.k = "none" THEN "wip" ELSE IF @ = "doc" /\ ev.force THEN "stale" ELSE @]]
      [] ev.op = "e_add" -> IF ~Ok(ev) THEN ss ELSE
            LET nk == { k \in { ev.sbs[n].k : n \in DOMAIN ev.sbs } : k \notin Rng(x.keys) } IN
            [ss EXCEPT !.e.sbs = Append(@, Item(ev.it)), !.e.keys = Append(@, IF Cardinality(nk) = 1 THEN CHOOSE k \in nk : TRUE ELSE -1), !.f.k = IF @ = "none" THEN @ ELSE "stale"]
      [] ev.op = "e_att" -> IF ~Ok(ev) THEN ss ELSE
            LET nk == { k \in { ev.atts[n].k : n \in DOMAIN ev.atts } : k \notin Rng(x.akeys) } IN
            [ss EXCEPT !.e.atts = Append(@, Att(ev.at)), !.e.akeys = Append(@, IF Cardinality(nk) = 1 THEN CHOOSE k \in nk : TRUE ELSE -1), !.f.k = "stale"]
      [] ev.op = "e_rep" -> LET p == KeyPos(x.keys, ev.key) IN
            IF Ok(ev) /\ p > 0 THEN [ss EXCEPT !.e.sbs[p] = Item(ev.it), !.e.unk = @ \ {ev.key}, !.f.k = "stale"] ELSE IF Hit(ev) THEN [ss EXCEPT !.e.unk = @ \union {ev.key}, !.f.k = "stale"] ELSE ss
      [] ev.op = "e_rem" -> LET p == KeyPos(x.keys, ev.key) IN
            IF Ok(ev) /\ p > 0 THEN [ss EXCEPT !.e.sbs = Without(@, p), !.e.keys = Without(@, p), !.f.k = "stale"] ELSE IF Hit(ev) THEN [ss EXCEPT !.e.unk = @ \union {ev.key}, !.f.k = "stale"] ELSE ss
      [] ev.op = "e_attrep" -> LET p == KeyPos(x.akeys, ev.key) IN
            IF Ok(ev) /\ p > 0 THEN [ss EXCEPT !.e.atts[p] = Att(ev.at), !.e.aunk = @ \ {ev.key}, !.f.k = "stale"] ELSE IF Hit(ev) THEN [ss EXCEPT !.e.aunk = @ \union {ev.key}, !.f.k = "stale"] ELSE ss
      [] ev.op = "e_attrem" -> LET p == KeyPos(x.akeys, ev.key) IN
            IF Ok(ev) /\ p > 0 THEN [ss EXCEPT !.e.atts = Without(@, p), !.e.akeys = Without(@, p), !.f.k = "stale"] ELSE IF Hit(ev) THEN [ss EXCEPT !.e.aunk = @ \union {ev.key}, !.f.k = "stale"] ELSE ss
      [] ev.op = "e_meta" -> IF Ok(ev) THEN [ss EXCEPT !.e.meta = [has |-> TRUE, d |-> ev.d, a |-> ev.a], !.e.mq = FALSE, !.f.k = "stale"] ELSE IF Hit(ev) THEN [ss EXCEPT !.e.mq = TRUE, !.f.k = "stale"] ELSE ss
      [] ev.op = "e_close" -> IF Ok(ev)
            THEN [ss EXCEPT !.f = [k |-> IF x.unk = {} /\ x.aunk = {} /\ ~x.mq THEN "doc" ELSE "loose", sbs |-> x.sbs, atts |-> x.atts, meta |-> x.meta, g |-> x.g, by |-> "e", metas |-> {}]]
            ELSE IF x.st = "op" THEN [ss EXCEPT !.f.k = "any"] ELSE ss
      [] OTHER -> ss
StepR(ss, ev) ==
    CASE ev.op = "r_new" -> [ss EXCEPT !.r = [R0 EXCEPT !.st = "init"]]
      [] ev.op = "r_open" -> IF Ok(ev) THEN [ss EXCEPT !.r = [R0 EXCEPT !.st = "op", !.doc = ss.f, !.frame = ev.frame]] ELSE ss
      [] ev.op = "r_close" -> [ss EXCEPT !.r = [R0 EXCEPT !.st = "init"]]
      [] ev.op \in {"r_q", "e_q"} /\ ev.f = "list" /\ Ok(ev) ->
            [ss EXCEPT !.r = [@ EXCEPT !.bound = TRUE, !.keys = [n \in DOMAIN ev.sbs |-> ev.sbs[n].k], !.infos = [n \in DOMAIN ev.sbs |-> ev.sbs[n].i],
                                       !.akeys = [n \in DOMAIN ev.atts |-> ev.atts[n].k], !.ainfos = [n \in DOMAIN ev.atts |-> ev.atts[n].i]]]
      [] OTHER -> ss
Step(ss, ev) ==
    CASE ev.op = "newfile" -> [ss EXCEPT !.f = NoDoc]
      [] ev.op \in {"corrupt", "trunc", "patch", "prefix", "build"} -> [ss EXCEPT !.f.k = "any"]
      [] OTHER -> StepR(StepE(StepW(ss, ev), ev), ev)

(* ---------- P01 ---------- *)
DiagP01(ss, ev) ==
    LET w == ss.w IN
    CASE Hit(ev) -> ""
      [] ev.op = "w_create" /\ w.st = "init" /\ ~Ok(ev) -> "creating a document was refused: " \o ev.r
      [] ev.op = "w_add" /\ w.st = "op" ->
            IF Ok(ev) /\ ~WAccepts(w, ev.it) THEN "a subblock that must be refused was accepted"
            ELSE IF ~Ok(ev) /\ WAccepts(w, ev.it) THEN "an acceptable subblock was refused: " \o ev.r ELSE ""
      [] ev.op = "w_att" /\ w.st = "op" ->
            IF Ok(ev) /\ ~AttAccepts(w.atts, ev) THEN "an attachment that must be refused was accepted"
            ELSE IF ~Ok(ev) /\ AttAccepts(w.atts, ev) THEN "an acceptable attachment was refused: " \o ev.r ELSE ""
      [] ev.op = "w_meta" /\ w.st = "op" -> IF Ok(ev) = ev.nulp THEN "metadata write: wrong result " \o ev.r ELSE ""
      [] ev.op = "w_close" /\ w.st = "op" /\ ~Ok(ev) -> "finishing the document failed: " \o ev.r
      [] ev.op = "dump" /\ IsDoc(ss) /\ ss.f.by = "w" -> DocDiff(ev, ss.f, FALSE)
      [] OTHER -> ""

(* ---------- P03 ---------- *)
EdDiff(ev, x) ==
    IF ev.er # "ok" THEN "editor state cannot be queried: " \o ev.er
    ELSE IF Len(ev.sbs) # Len(x.sbs) \/ EdInfos(ev) # ModInfos(x) THEN "editor reports a different set of subblocks"
    ELSE IF Len(ev.atts) # Len(x.atts) \/ ev.nat # Len(x.atts) \/ EdAtts(ev) # ModAtts(x) THEN "editor reports a different set of attachments" ELSE ""
EdDump(ev, x) ==
    IF ~Ok(ev) THEN "editor contents cannot be read: " \o ev.r
    ELSE IF ~ReadsOk(ev) THEN "an item cannot be read through the editor"
    ELSE IF Len(ev.sbs) # Len(x.sbs) \/ { << ev.sbs[n].k, ObsItem(ev.sbs[n]) >> : n \in DOMAIN ev.sbs } # { << x.keys[n], x.sbs[n] >> : n \in DOMAIN x.sbs } THEN "subblocks seen through the editor differ"
    ELSE IF Len(ev.atts) # Len(x.atts) \/ { << ev.atts[n].k, ObsAtt(ev.atts[n]) >> : n \in DOMAIN ev.atts } # { << x.akeys[n], x.atts[n] >> : n \in DOMAIN x.atts } THEN "attachments seen through the editor differ"
    ELSE IF x.meta.has /\ ev.mr # "ok" THEN "metadata cannot be read through the editor: " \o ev.mr
    ELSE IF ev.meta # x.meta THEN "metadata seen through the editor differs" ELSE ""
EOps == {"e_add", "e_att", "e_rep", "e_rem", "e_attrep", "e_attrem", "e_meta"}
EExpect(x, ev) ==
    CASE ev.op = "e_add" -> EAccepts(x, ev.it)
      [] ev.op = "e_att" -> AttAccepts(x.atts, ev)
      [] ev.op \in {"e_rep", "e_rem"} -> KeyPos(x.keys, ev.key) > 0
      [] ev.op \in {"e_attrep", "e_attrem"} -> KeyPos(x.akeys, ev.key) > 0
      [] ev.op = "e_meta" -> ~ev.nulp
DiagP03(ss, ev) ==
    LET x == ss.e IN
    CASE Hit(ev) -> ""
      [] ev.op = "e_create" /\ x.st = "init" /\ ss.f.k \in {"doc", "none"} ->
            IF ~Ok(ev) THEN "opening for editing was refused: " \o ev.r ELSE DocDiff(ev.dump, [ss.f EXCEPT !.g = 0], TRUE)
      [] ev.op \in EOps /\ x.st = "op" ->
            IF Ok(ev) /\ ~EExpect(x, ev) THEN "an operation that must be refused was accepted: " \o ev.op
            ELSE IF ~Ok(ev) /\ EExpect(x, ev) THEN "an admissible operation was refused: " \o ev.op \o " " \o ev.r
            ELSE EdDiff(ev, StepE(ss, ev).e)
      [] ev.op = "e_dump" /\ x.st = "op" -> EdDump(ev, x)
      [] ev.op = "e_close" /\ x.st = "op" /\ ~Ok(ev) -> "finishing the edit failed: " \o ev.r
      [] ev.op = "dump" /\ IsDoc(ss) /\ ss.f.by = "e" -> DocDiff(ev, ss.f, FALSE)
      [] OTHER -> ""

(* ---------- P04: every crash point ---------- *)
PrefixBad(d, f, complete) ==
    IF complete THEN DocDiff(d, f, FALSE)
    ELSE IF ~Ok(d) THEN ""
    ELSE IF \E n \in DOMAIN d.sbs : d.sbs[n].r = "ok" /\ ~\E k \in DOMAIN f.sbs : f.sbs[k] = ObsItem(d.sbs[n]) THEN "a subblock that was never written completely is presented"
    ELSE IF \E n \in DOMAIN d.sbs : d.sbs[n].r # "ok" THEN "a subblock is listed but its bytes are not there"
    ELSE IF Len(d.sbs) > Len(f.sbs) THEN "more subblocks than were written"
    ELSE IF \E n \in DOMAIN d.atts : d.atts[n].r = "ok" /\ ~\E k \in DOMAIN f.atts : f.atts[k] = ObsAtt(d.atts[n]) THEN "an attachment that was never written completely is presented"
    ELSE IF \E n \in DOMAIN d.atts : d.atts[n].r # "ok" THEN "an attachment is listed but its bytes are not there"
    ELSE IF d.mr = "ok" /\ d.meta.has /\ d.meta \notin f.metas THEN "metadata that was never written completely is presented"
    ELSE ""
DiagP04(ss, ev) ==
    CASE ev.op = "prefixes" /\ IsDoc(ss) /\ ss.f.by = "w" ->
            IF ~ev.same THEN "the write log does not reproduce the file"
            ELSE LET B == { n \in DOMAIN ev.out : PrefixBad(ev.out[n], ss.f, ev.out[n].k = ev.n) # "" } IN
                 IF B = {} THEN "" ELSE LET n == MinOf(B) IN PrefixBad(ev.out[n], ss.f, ev.out[n].k = ev.n)
      [] ev.op \in {"w_create", "w_close"} /\ ss.w.st # "none" -> DiagP01(ss, ev)
      [] OTHER -> ""

(* ---------- P05 ---------- *)
DumpFault(ev) == \/ ev.r # "ok" \/ ev.mr \notin {"ok", "libczi"}
                 \/ \E n \in DOMAIN ev.sbs : ev.sbs[n].r # "ok"
                 \/ \E n \in DOMAIN ev.atts : ev.atts[n].r # "ok"
ReadSubset(ev, d) ==    \* everything that was reported is genuine
    IF ev.r = "ok" /\ (\E n \in DOMAIN ev.sbs : ev.sbs[n].r = "ok" /\ ~\E k \in DOMAIN d.sbs : d.sbs[k] = ObsItem(ev.sbs[n])) THEN "a subblock was reported with content nobody wrote"
    ELSE IF ev.r = "ok" /\ (\E n \in DOMAIN ev.atts : ev.atts[n].r = "ok" /\ ~\E k \in DOMAIN d.atts : d.atts[k] = ObsAtt(ev.atts[n])) THEN "an attachment was reported with content nobody wrote"
    ELSE IF ev.r = "ok" /\ ev.mr = "ok" /\ ev.meta.has /\ ev.meta # d.meta THEN "metadata was reported with content nobody wrote" ELSE ""
DiagP05(ss, ev) ==
    CASE ev.op = "dump" /\ Hit(ev) /\ ss.f.k = "doc" -> IF ~DumpFault(ev) THEN "a failing read was reported as success" ELSE ReadSubset(ev, ss.f)
      [] ev.op \in {"r_open"} /\ Hit(ev) -> IF Ok(ev) THEN "open reported success although a read failed" ELSE ""
      [] Hit(ev) /\ ev.op # "dump" -> IF Ok(ev) THEN "I/O failure reported as success: " \o ev.op
                  ELSE IF ev.op \in EOps /\ ss.e.st = "op" THEN EdDiffU(ev, StepE(ss, ev).e) ELSE ""
      [] ev.op = "dump" /\ ~Hit(ev) /\ ss.f.k = "doc" -> DocDiff(ev, ss.f, FALSE)
      [] ev.op = "dump" /\ ~Hit(ev) /\ ss.f.k = "docmq" -> DocDiff(ev, [ss.f EXCEPT !.meta = IF ev.mr = "ok" THEN ev.meta ELSE NoMeta], FALSE)
      [] ev.op = "dump" /\ ~Hit(ev) /\ ss.f.k = "loose" -> LooseDiff(ev, ss.e)
      [] ev.op \in {"w_add", "w_att", "w_meta", "w_close", "w_create"} /\ ss.w.st = (IF ev.op = "w_create" THEN "init" ELSE "op") /\ ~Hit(ev) -> DiagP01(ss, ev)
      [] ev.op \in {"e_add", "e_att"} /\ ss.e.st = "op" /\ ss.e.unk = {} /\ ss.e.aunk = {} /\ ~Hit(ev) -> DiagP03(ss, ev)
      [] OTHER -> ""

(* ---------- P06 ---------- *)
InfosOf(q) == SMap(LAMBDA o : o.i, q)
StPy(ev, infos) == LET a == StatsDiff(ev.st, infos) IN IF a # "" THEN a ELSE PyrDiff(ev.py, infos)
WrapSt(m) == IF m = "" THEN "" ELSE "statistics disagree with the directory: " \o m
DiagP06(ss, ev) ==
    CASE ev.op \in {"dump", "e_dump"} /\ Ok(ev) -> WrapSt(StPy(ev, IF ev.op = "dump" /\ IsDoc(ss) THEN InfosOf(ss.f.sbs) ELSE InfosOf(ev.sbs)))
      [] ev.op = "e_create" /\ Ok(ev) -> WrapSt(StPy(ev.dump, InfosOf(ev.dump.sbs)))
      [] ev.op \in EOps /\ ev.er = "ok" -> WrapSt(StPy(ev, InfosOf(ev.sbs)))
      [] ev.op \in {"r_q", "e_q"} /\ ev.f = "list" /\ Ok(ev) -> WrapSt(StPy(ev, InfosOf(ev.sbs)))
      [] ev.op = "w_stats" /\ Ok(ev) -> WrapSt(StatsDiff(ev.st, InfosOf(ss.w.sbs)))
      [] ev.op = "w_prep" /\ Ok(ev) -> WrapSt(PrepDiff(ev, InfosOf(ss.w.sbs), ToString))
      [] OTHER -> ""

(* ---------- P07 ---------- *)
Upto(q, stop) == IF stop < 0 \/ Len(q) <= stop THEN q ELSE SubSeq(q, 1, stop + 1)
QRes(keys, infos, P(_)) == LET idx == SelectSeq([n \in DOMAIN keys |-> n], LAMBDA n : P(infos[n])) IN [n \in DOMAIN idx |-> [k |-> keys[idx[n]], i |-> infos[idx[n]]]]
(* with a stop request: exactly min(stop+1, number) calls, all of them to distinct members of the full answer *)
QOk(out, full, stop) == /\ Len(out) = Len(Upto(full, stop)) /\ SubBag(out, full) /\ (\A n \in DOMAIN out : Cnt(out, out[n]) = 1)
ListOk(ev, isR) ==
    /\ \A n \in DOMAIN ev.sbs : ev.sbs[n].q /\ ev.sbs[n].qi = ev.sbs[n].i
    /\ \A n \in DOMAIN ev.atts : ev.atts[n].q /\ ev.atts[n].qi = ev.atts[n].i
    /\ Cardinality({ ev.sbs[n].k : n \in DOMAIN ev.sbs }) = Len(ev.sbs)
    /\ Cardinality({ ev.atts[n].k : n \in DOMAIN ev.atts }) = Len(ev.atts)
    /\ ev.nat = Len(ev.atts)
    /\ isR => { ev.sbs[n].k : n \in DOMAIN ev.sbs } = 0..(Len(ev.sbs) - 1) /\ { ev.atts[n].k : n \in DOMAIN ev.atts } = 0..(Len(ev.atts) - 1)
ArbOk(infos, x) ==    \* x: c, b, i
    LET S == Rng(infos) hasC == \E j \in S : HasDim(j, "C")
        cand == IF hasC THEN { j \in S : HasDim(j, "C") /\ Pos(j, "C") = x.c } ELSE S
    IN x.b = (cand # {}) /\ (x.b => x.i \in cand)
DiagP07(ss, ev) ==
    LET r == ss.r IN
    CASE ev.op \in {"dump", "e_dump"} /\ Ok(ev) ->
            IF ~ListOk(ev, ev.op = "dump") THEN "lookup by index disagrees with enumeration"
            ELSE IF ev.op = "dump" /\ IsDoc(ss) /\ ~SameBag(InfosOf(ev.sbs), InfosOf(ss.f.sbs)) THEN "enumeration does not visit exactly the stored subblocks"
            ELSE IF ev.op = "dump" /\ IsDoc(ss) /\ ~SameBag(InfosOf(ev.atts), InfosOf(ss.f.atts)) THEN "enumeration does not visit exactly the stored attachments"
            ELSE IF ev.op = "dump" /\ \E n \in DOMAIN ev.arb : ev.arb[n].r = "ok" /\ ~ArbOk(InfosOf(ev.sbs), ev.arb[n]) THEN "lookup of an arbitrary subblock of a channel is wrong" ELSE ""
      [] ev.op \in {"r_q", "e_q"} /\ ~Ok(ev) /\ r.bound /\ ev.f \in {"list", "subset", "enumstop", "attsubset", "arb"} -> "query failed: " \o ev.f \o " " \o ev.r
      [] ev.op \in {"r_q", "e_q"} /\ ~r.bound /\ ev.f # "list" -> ""
      [] ev.op \in {"r_q", "e_q"} /\ Ok(ev) -> (
            CASE ev.f = "list" -> IF ~ListOk(ev, ev.op = "r_q") THEN "lookup by index disagrees with enumeration"
                    ELSE IF ev.op = "r_q" /\ r.doc.k = "doc" /\ ~SameBag(InfosOf(ev.sbs), InfosOf(r.doc.sbs)) THEN "enumeration does not visit exactly the stored subblocks"
                    ELSE IF ev.op = "r_q" /\ r.doc.k = "doc" /\ ~SameBag(InfosOf(ev.atts), InfosOf(r.doc.atts)) THEN "enumeration does not visit exactly the stored attachments" ELSE ""
              [] ev.f = "subset" -> IF QOk(ev.out, QRes(r.keys, r.infos, LAMBDA j : Selected(j, ev)), ev.stop) THEN "" ELSE "filtered enumeration does not select exactly the matching subblocks"
              [] ev.f = "enumstop" -> IF ev.calls = Min2(ev.stop + 1, Len(r.infos)) /\ ev.acalls = Min2(ev.stop + 1, Len(r.ainfos)) THEN "" ELSE "enumeration goes on after the visitor asked to stop"
              [] ev.f = "attsubset" -> IF QOk(ev.out, QRes(r.akeys, r.ainfos, LAMBDA j : (ev.ht => j.ft = ev.ft) /\ (ev.hn => j.nm = ev.nm)), ev.stop) THEN "" ELSE "attachment filter does not select exactly the matching attachments"
              [] ev.f = "index" -> LET p == KeyPos(r.keys, ev.k) IN IF p = 0 THEN (IF ev.b \/ ev.sb THEN "an index that does not exist was resolved" ELSE "")
                                   ELSE IF ev.b /\ ev.sb /\ ev.i = r.infos[p] THEN "" ELSE "lookup by index disagrees with enumeration"
              [] ev.f = "attindex" -> LET p == KeyPos(r.akeys, ev.k) IN IF p = 0 THEN (IF ev.b \/ ev.sb THEN "an attachment index that does not exist was resolved" ELSE "")
                                   ELSE IF ev.b /\ ev.sb /\ ev.i = r.ainfos[p] THEN "" ELSE "attachment lookup by index disagrees with enumeration"
              [] ev.f = "arb" -> IF ArbOk(r.infos, ev) THEN "" ELSE "lookup of an arbitrary subblock of a channel is wrong"
              [] OTHER -> "")
      [] OTHER -> ""

(* ---------- P08: frames 0 invalid, 1 default, 2 raw subblock, 3 pixel ---------- *)
Eff(f, def) == IF f = 1 THEN (IF def \in {0, 1} THEN 2 ELSE def) ELSE f
DiagP08(ss, ev) ==
    LET r == ss.r IN
    CASE ev.op \in {"r_q", "e_q"} /\ r.bound /\ ev.f \in {"tp", "tr"} ->
            LET sf == Eff(ev.sf, r.frame) df == Eff(ev.df, r.frame)
                b == Box({ j \in Rng(r.infos) : Layer0(j) })
                ox == IF b = << >> THEN 0 ELSE b[1]  oy == IF b = << >> THEN 0 ELSE b[2]
                dx == IF sf = df THEN 0 ELSE IF sf = 2 THEN -ox ELSE ox   dy == IF sf = df THEN 0 ELSE IF sf = 2 THEN -oy ELSE oy
            IN IF sf \notin {2, 3} \/ df \notin {2, 3} THEN (IF Ok(ev) /\ ~(sf = df) THEN "an invalid frame of reference was accepted" ELSE "")
               ELSE IF ~Ok(ev) THEN "frame conversion failed: " \o ev.r
               ELSE IF b = << >> /\ sf # df THEN ""
               ELSE IF ev.of # df THEN "wrong frame of reference in the result"
               ELSE IF ev.out # [n \in DOMAIN ev.v |-> IF n = 1 THEN ev.v[1] + dx ELSE IF n = 2 THEN ev.v[2] + dy ELSE ev.v[n]] THEN "frame conversion is not the translation by the layer-0 origin" ELSE ""
      [] OTHER -> ""

(* ---------- P02: raw layout ---------- *)
SegAt(ev, p) == { n \in DOMAIN ev.segs : ev.segs[n].p = p }
Seg(ev, p) == ev.segs[CHOOSE n \in SegAt(ev, p) : TRUE]
LiveOk(ev, p, id) == SegAt(ev, p) # {} /\ Seg(ev, p).id = id /\ p + 32 + Seg(ev, p).al <= ev.size
(* what lies behind the last live segment (deleted items, remains of refused calls) is overwritten by the next append *)
LastLive(ev) == MaxOf({0, ev.hdr.dir, ev.hdr.meta, ev.hdr.att} \union { ev.dir[n].fp : n \in DOMAIN ev.dir } \union { ev.adir[n].fp : n \in DOMAIN ev.adir })
Chain(ev) == { n \in DOMAIN ev.segs : ev.segs[n].p <= LastLive(ev) }
NoFp(en) == [ en EXCEPT !.fp = 0 ]
DiagP02(ss, ev) ==
    CASE ev.op = "layout" /\ ss.f.k \in {"doc"} ->
        IF ~ev.hdr.ok THEN "no valid file header"
        ELSE IF \E n \in Chain(ev) : ev.segs[n].p % 32 # 0 \/ ev.segs[n].al % 32 # 0 THEN "a segment is not aligned"
        ELSE IF \E n \in Chain(ev) : ev.segs[n].us > ev.segs[n].al THEN "a segment uses more than it allocates"
        ELSE IF \E n \in Chain(ev) : ev.segs[n].need >= 0 /\ ev.segs[n].id # "DELETED" /\ ev.segs[n].need > ev.segs[n].al THEN "the parts of a segment exceed its allocated size"
        ELSE IF ev.hdr.upd # 0 THEN "the update-pending mark is still set"
        ELSE IF ev.hdr.dir # 0 /\ ~LiveOk(ev, ev.hdr.dir, "ZISRAWDIRECTORY") THEN "the header does not point at a live subblock directory"
        ELSE IF ev.hdr.meta # 0 /\ ~LiveOk(ev, ev.hdr.meta, "ZISRAWMETADATA") THEN "the header does not point at a live metadata segment"
        ELSE IF ev.hdr.att # 0 /\ ~LiveOk(ev, ev.hdr.att, "ZISRAWATTDIR") THEN "the header does not point at a live attachment directory"
        ELSE IF ev.hdr.dir = 0 /\ ss.f.sbs # << >> THEN "the header points at no subblock directory"
        ELSE IF ev.hdr.att = 0 /\ ss.f.atts # << >> THEN "the header points at no attachment directory"
        ELSE IF (ev.hdr.meta = 0) # ~ss.f.meta.has THEN "the header and the metadata segment disagree"
        ELSE IF ev.hdr.dir # 0 /\ (ev.dcount # Len(ev.dir) \/ ev.dlen > Seg(ev, ev.hdr.dir).al) THEN "the subblock directory does not fit its segment"
        ELSE IF ev.hdr.dir # 0 /\ Len(ev.dir) # Len(ss.f.sbs) THEN "number of directory entries"
        ELSE IF \E n \in DOMAIN ev.dir : ~ev.dir[n].ok \/ ~LiveOk(ev, ev.dir[n].fp, "ZISRAWSUBBLOCK") THEN "a directory entry does not point at a live subblock segment"
        ELSE IF \E n \in DOMAIN ev.dir : NoFp(Seg(ev, ev.dir[n].fp).en) # NoFp(ev.dir[n]) THEN "a subblock's embedded description differs from its directory entry"
        ELSE IF \E n \in DOMAIN ev.dir : Seg(ev, ev.dir[n].fp).en.fp # ev.dir[n].fp THEN "a subblock's embedded file position differs from its directory entry"
        ELSE IF Cardinality({ ev.dir[n].fp : n \in DOMAIN ev.dir }) # Len(ev.dir) THEN "two directory entries share a segment"
        ELSE IF ev.hdr.att # 0 /\ (ev.acount # Len(ev.adir) \/ 256 + 128 * ev.acount > Seg(ev, ev.hdr.att).al) THEN "the attachment directory does not fit its segment"
        ELSE IF ev.hdr.att # 0 /\ Len(ev.adir) # Len(ss.f.atts) THEN "number of attachment directory entries"
        ELSE IF \E n \in DOMAIN ev.adir : ~ev.adir[n].ok \/ ~LiveOk(ev, ev.adir[n].fp, "ZISRAWATTACH") THEN "an attachment entry does not point at a live attachment segment"
        ELSE IF \E n \in DOMAIN ev.adir : Seg(ev, ev.adir[n].fp).en # << ev.adir[n].dg, ev.adir[n].fp >> THEN "an attachment's embedded description differs from its directory entry"
        ELSE IF Cardinality({ ev.adir[n].fp : n \in DOMAIN ev.adir }) # Len(ev.adir) THEN "two attachment entries share a segment"
        ELSE IF Cardinality({ n \in Chain(ev) : ev.segs[n].id = "ZISRAWDIRECTORY" }) > 1 THEN "more than one live subblock directory"
        ELSE IF Cardinality({ n \in Chain(ev) : ev.segs[n].id = "ZISRAWATTDIR" }) > 1 THEN "more than one live attachment directory"
        ELSE IF Cardinality({ n \in Chain(ev) : ev.segs[n].id = "ZISRAWMETADATA" }) > 1 THEN "more than one live metadata segment"
        ELSE ""
      [] ev.op = "dump" /\ IsDoc(ss) -> LET m == DocDiff(ev, ss.f, FALSE) IN IF m = "" THEN "" ELSE "content clobbered: " \o m
      [] OTHER -> ""

(* ---------- P25: life cycle ---------- *)
WOps == {"w_add", "w_att", "w_meta", "w_stats", "w_prep", "w_close"}
DiagP25(ss, ev) ==
    LET ro(o) == IF o = "r" THEN ss.r.st ELSE ss.e.st IN
    CASE Hit(ev) -> ""
      [] ev.op = "w_create" -> IF ss.w.st = "op" /\ Ok(ev) THEN "second create on an operational writer accepted" ELSE IF ss.w.st = "init" /\ ~Ok(ev) THEN "create refused on an unused writer: " \o ev.r ELSE ""
      [] ev.op \in WOps /\ ss.w.st = "init" -> IF Ok(ev) THEN "operation accepted by a writer that is not operational: " \o ev.op ELSE ""
      [] ev.op \in {"w_stats", "w_prep", "w_close"} /\ ss.w.st = "op" /\ ~Ok(ev) -> "operation refused by an operational writer: " \o ev.op \o " " \o ev.r
      [] ev.op = "e_create" -> IF ss.e.st = "op" /\ Ok(ev) THEN "second create on an operational editor accepted" ELSE IF ss.e.st = "init" /\ ss.f.k \in {"doc", "none"} /\ ~Ok(ev) THEN "create refused on an unused editor: " \o ev.r ELSE ""
      [] ev.op \in EOps \union {"e_close", "e_dump"} /\ ss.e.st = "init" -> IF Ok(ev) THEN "operation accepted by an editor that is not operational: " \o ev.op ELSE ""
      [] ev.op = "r_open" -> IF ss.r.st = "op" /\ Ok(ev) THEN "second open on an operational reader accepted" ELSE IF ss.r.st = "init" /\ IsDoc(ss) /\ ~Ok(ev) THEN "open refused on an unused reader: " \o ev.r
                             ELSE IF ss.r.st = "init" /\ ss.f.k = "none" /\ Ok(ev) THEN "an empty file was opened" ELSE ""
      [] ev.op = "r_call" -> IF ss.r.st = "init" THEN (IF ev.r # "logic" THEN "call on a reader that is not open: " \o ev.f \o " gives " \o ev.r ELSE "")
                             ELSE IF ss.r.st = "op" THEN (IF ev.r = "logic" THEN "call refused by an open reader: " \o ev.f
                                       ELSE IF ev.r # "ok" /\ (ev.f # "meta" \/ ss.r.doc.meta.has) THEN "call failed on an open reader: " \o ev.f \o " " \o ev.r ELSE "") ELSE ""
      [] ev.op = "r_q" /\ ss.r.st = "init" -> IF Ok(ev) THEN "query accepted by a reader that is not open: " \o ev.f ELSE ""
      [] ev.op = "e_call" -> IF ss.e.st = "init" THEN (IF ev.r # "logic" THEN "call on an editor that is not operational: " \o ev.f \o " gives " \o ev.r ELSE "")
                             ELSE IF ss.e.st = "op" /\ ev.r # "ok" THEN "call failed on an operational editor: " \o ev.f \o " " \o ev.r ELSE ""
      [] ev.op = "dump" /\ IsDoc(ss) -> LET m == DocDiff(ev, ss.f, FALSE) IN IF m = "" THEN "" ELSE "a refused call had an effect: " \o m
      [] ev.op = "e_dump" /\ ss.e.st = "op" -> EdDump(ev, ss.e)
      [] OTHER -> ""

Diag(ss, ev) == CASE PROP = "P01" -> DiagP01(ss, ev) [] PROP = "P02" -> DiagP02(ss, ev) [] PROP = "P03" -> DiagP03(ss, ev) [] PROP = "P04" -> DiagP04(ss, ev) [] PROP = "P05" -> DiagP05(ss, ev)
                  [] PROP = "P06" -> DiagP06(ss, ev) [] PROP = "P07" -> DiagP07(ss, ev) [] PROP = "P08" -> DiagP08(ss, ev) [] PROP = "P25" -> DiagP25(ss, ev)
                  [] OTHER -> "no such property"

Init == e \in 1..Len(Eps) /\ i = 0 /\ s = S0 /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ i' = i + 1 /\ e' = e
        /\ LET ev == Eps[e].ev[i + 1] IN bad' = Diag(s, ev) /\ s' = Step(s, ev)
        /\ (bad' # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o bad'))
Spec == Init /\ [][Next]_vars
=============================================================================
