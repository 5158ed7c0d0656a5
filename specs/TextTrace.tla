------------------------------ MODULE TextTrace ------------------------------
(* Judges recorded calls of parsers and formatters against the grammars.       *)
EXTENDS Text, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
Set(q) == { q[k] : k \in 1..Len(q) }
(* formatting an accepted value and parsing the text gives the value again *)
JudgeCoord(ev) ==
    LET g == Coord(ev.t, 1, {}) IN
    IF ev.r \notin {"ok", "no"} THEN "StringToDimCoordinate threw" ELSE IF ev.p \notin {"ok", "strparse"} THEN "unexpected exception from a coordinate parser"
    ELSE IF g.ok # (ev.r = "ok") \/ g.ok # (ev.p = "ok") \/ g.ok # ev.nul THEN (IF g.ok THEN "a coordinate text was refused" ELSE "a text which is no coordinate was accepted")
    ELSE IF g.ok /\ (Set(ev.v) # g.v \/ Set(ev.u) # g.v) THEN "a coordinate text was parsed wrongly"
    ELSE IF g.ok /\ ~(ev.r2 /\ Set(ev.w) = g.v) THEN "a coordinate does not survive formatting and parsing" ELSE ""
JudgeFCoord(ev) ==
    LET g == Coord(ev.f, 1, {}) IN
    IF ~g.ok \/ g.v # Set(ev.v) THEN "a coordinate was formatted as a text denoting something else" ELSE IF ~ev.r2 \/ Set(ev.w) # Set(ev.v) THEN "a coordinate does not survive formatting and parsing" ELSE ""
Pos(v) == v # << >> /\ \A k \in 1..Len(v) : v[k][3] > 0
JudgeFBounds(ev, v) ==
    LET g == ParseBounds(ev.f) IN
    IF ~Pos(v) THEN ""
    ELSE IF ~g.ok \/ g.v # Set(v) THEN "bounds were formatted as a text denoting something else" ELSE IF ev.r2 # "ok" \/ Set(ev.w) # Set(v) THEN "bounds do not survive formatting and parsing" ELSE ""
JudgeBounds(ev) ==
    LET g == ParseBounds(ev.t) IN
    IF ev.r \notin {"ok", "strparse"} THEN "unexpected exception from the bounds parser"
    ELSE IF ~g.ok /\ ev.r = "ok" THEN "a text which denotes no bounds was accepted"
    ELSE IF g.ok /\ ev.r # "ok" THEN (IF g.lax THEN "" ELSE "a bounds text was refused")
    ELSE IF g.ok /\ Set(ev.v) # g.v THEN "a bounds text was parsed wrongly" ELSE IF g.ok THEN JudgeFBounds(ev, ev.v) ELSE ""
JudgeIdx(ev) ==
    LET g == IndexSet(ev.t) IN
    IF ev.r \notin {"ok", "strparse"} THEN "unexpected exception from the index-set parser"
    ELSE IF ~g.ok THEN (IF ev.r = "ok" THEN "a text which is no index set was accepted" ELSE "")
    ELSE IF ev.r # "ok" THEN (IF g.lax THEN "" ELSE "an index-set text was refused")
    ELSE IF \E k \in 1..Len(ev.pr) : ev.in[k] # Contains(g.iv, ev.pr[k]) THEN "an index set contains the wrong indices" ELSE ""
JudgeComp(ev) ==
    LET g == Comp(ev.t) IN
    IF ~g.ok THEN (IF ev.r = "ok" THEN "a text which is no compression option was accepted" ELSE IF ev.r \notin {"logic", "arg", "range"} THEN "unexpected exception: " \o ev.r ELSE "")
    ELSE IF ev.r # "ok" THEN "a compression option text was refused: " \o ev.r
    ELSE IF ev.m # g.m THEN "wrong compression method" ELSE IF ev.lv # g.lv THEN "wrong compression level" ELSE IF ev.hl # g.hl THEN "wrong preprocessing" ELSE ""
JudgeMode(ev) == IF ev.r # "ok" \/ ev.m # ev.k THEN "the name of a compression method does not parse to that method" ELSE IF ev.lv # << >> \/ ev.hl THEN "parameters from nowhere" ELSE ""
JudgeEnum(ev) ==
    LET b == Set(ev.b) n == IF b = {} THEN 0 ELSE Volume(b) cut == ev.stop > 0 /\ ev.stop <= n IN
    IF ev.r # "ok" THEN "refused: " \o ev.r
    ELSE IF Len(ev.l) # (IF cut THEN ev.stop ELSE n) THEN "wrong number of coordinates enumerated"
    ELSE IF ev.ret # ~cut THEN "wrong result of the enumeration"
    ELSE IF \E k \in 1..Len(ev.l) : ev.l[k][1] # k - 1 THEN "the counter is wrong"
    ELSE IF \E k \in 1..Len(ev.l) : ~Inside(b, Set(ev.l[k][2])) THEN "a coordinate outside the bounds was enumerated"
    ELSE IF Cardinality({ ev.l[k][2] : k \in 1..Len(ev.l) }) # Len(ev.l) THEN "a coordinate was enumerated twice" ELSE ""
JudgeCmp(ev) == LET p == Set(ev.a) q == Set(ev.b) IN
    IF ev.k # Cmp(p, q) THEN "wrong order of coordinates" ELSE IF ev.hs # (Dims(p) = Dims(q)) THEN "wrong comparison of dimensions" ELSE ""
ZoneV(z) == IF z = << >> THEN << 0, 0, 0 >> ELSE IF z[1] = "Z" THEN << 1, 0, 0 >> ELSE << 2, z[2], z[3] >>
(* what remains to be true about formatting the date v *)
JudgeFmt(ev, v) ==
    LET g == Date(ev.f) IN
    IF ev.g # "ok" THEN "a valid date was not formatted"
    ELSE IF ~g.ok \/ g.v \o ZoneV(g.zone) # v THEN "a date was formatted as a text denoting something else"
    ELSE IF ~ev.r2 \/ ev.w # v THEN "a date does not survive formatting and parsing" ELSE ""
JudgeDate(ev) ==
    LET g == Date(ev.t) IN
    IF ev.r \notin {"ok", "no"} \/ ev.rw \notin {"ok", "no"} THEN "TryParse threw"
    ELSE IF ~g.ok THEN (IF ev.r = "ok" \/ ev.rw = "ok" THEN "a text which is no date was accepted" ELSE "")
    ELSE IF ev.r # "ok" \/ ev.rw # "ok" THEN "a date text was refused"
    ELSE IF ev.v # g.v \o ZoneV(g.zone) \/ ev.vw # ev.v THEN "a date text was parsed wrongly" ELSE JudgeFmt(ev, ev.v)
JudgeFDate(ev) ==
    LET v == ev.v ok == DateOk(v[1], v[2], v[3], v[4], v[5], v[6]) IN
    IF ok # (ev.r = "ok") THEN "wrong validity of a date" ELSE IF ~ok THEN (IF ev.g # "arg" THEN "formatting an invalid date did not fail as documented" ELSE "") ELSE JudgeFmt(ev, ev.vv)
JudgeColour(ev) == LET g == Colour(ev.t) IN
    IF ev.r \notin {"ok", "no"} THEN "reading the colour failed: " \o ev.r ELSE IF g.ok # (ev.r = "ok") THEN (IF g.ok THEN "a colour was not recognized" ELSE "a text which is no colour was accepted") ELSE IF g.ok /\ ev.v # g.v THEN "a colour was parsed wrongly" ELSE ""
Judge(ev) ==
    CASE ev.o = "coord" -> JudgeCoord(ev) [] ev.o = "fcoord" -> JudgeFCoord(ev) [] ev.o = "bounds" -> JudgeBounds(ev) [] ev.o = "fbounds" -> JudgeFBounds(ev, ev.v)
      [] ev.o = "idx" -> JudgeIdx(ev) [] ev.o = "comp" -> JudgeComp(ev) [] ev.o = "mode" -> JudgeMode(ev) [] ev.o = "enum" -> JudgeEnum(ev) [] ev.o = "cmp" -> JudgeCmp(ev)
      [] ev.o = "date" -> JudgeDate(ev) [] ev.o = "fdate" -> JudgeFDate(ev) [] OTHER -> JudgeColour(ev)
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = << >> /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] v == Judge(ev) IN
             /\ bad' = v /\ i' = i + 1 /\ UNCHANGED << e, s >>
             /\ (v # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o v))
Spec == Init /\ [][Next]_vars
=============================================================================
