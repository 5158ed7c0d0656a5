---------------------------- MODULE StreamTrace ----------------------------
(* One file and any number of streams on it (or on their own memory).  Episodes start with an event "file" that says what is
   there; "open" a stream, read, write, close; "raw" is the content of the file as the operating system shows it. *)
EXTENDS Streams, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
InKinds == { "pread", "crt", "crtw", "default", "defaultw", "create" }
MemKinds == { "mem", "att" }
OutKinds == { "out", "out8", "outcrt" }
IoKinds == { "io", "iocrt" }
HttpKinds == { "curl" }
(* a server: "f" answers with the range asked for (so does "chunked", piecewise), "rd/m" redirects to m, "whole" answers with the whole document,
   "more" with more than was asked for, "cut" breaks off in the middle, "e..." with an error page; "refused" is no server at all *)
RECURSIVE Target(_, _, _)
Target(m, follow, n) == IF Len(m) > 3 /\ SubSeq(m, 1, 3) = "rd/" THEN (IF follow /\ n > 0 THEN Target(SubSeq(m, 4, Len(m)), follow, n - 1) ELSE "notfollowed") ELSE m
Opt(ev, k, df) == IF k \in DOMAIN ev THEN ev[k] ELSE df
Mode(ev) == Target(ev.mode, Opt(ev, "follow", FALSE), Opt(ev, "redirs", 30))
Dir(ev) == "dir" \in DOMAIN ev /\ ev.dir
\* must opening succeed (1), must it fail (0), or is it not determined (2)?
Opens(f, ev) ==
    CASE Dir(ev) -> (IF ev.kind \in InKinds THEN 2 ELSE 0)
      [] ev.kind \in InKinds -> (IF f.ex THEN 1 ELSE 0)
      [] ev.kind \in MemKinds -> 1
      [] ev.kind \in HttpKinds -> (IF ev.mode = "badurl" \/ Opt(ev, "wrong", FALSE) THEN 0 ELSE 1)
      [] ev.kind \in OutKinds -> (IF f.ex /\ ~ev.over THEN 0 ELSE 1)
      [] ev.kind \in IoKinds -> (IF f.ex THEN 1 ELSE 2)
Seqd(d) == [ex |-> TRUE, len |-> << 0, Len(d) >>, b |-> [q \in { << 0, k - 1 >> : k \in 1..Len(d) } |-> d[q[2] + 1]]]
AfterOpen(st, ev) ==
    LET f == st.f
        f1 == IF Dir(ev) THEN f
              ELSE IF ev.kind \in OutKinds THEN Empty
              ELSE IF ev.kind \in IoKinds /\ ~f.ex THEN Empty ELSE f
        h == [kind |-> ev.kind, mode |-> IF ev.kind \in HttpKinds THEN Mode(ev) ELSE "", ua |-> Opt(ev, "ua", ""), ck |-> Opt(ev, "ck", ""), dir |-> Dir(ev), m |-> IF ev.kind \in MemKinds THEN Seqd(ev.d) ELSE NoFile]
    IN [st EXCEPT !.f = f1, !.h = (ev.h :> h) @@ @]
File(st, ev) == LET h == st.h[ev.h] IN IF h.kind \in MemKinds THEN h.m ELSE st.f
Huge(ev) == "huge" \in DOMAIN ev /\ ev.huge
Exact(f, ev, n) == ev.got = n /\ ev.same /\ Agrees(f, ev.p, ev.d)
JudgeHttp(st, ev) ==
    LET f == st.f h == st.h[ev.h] n == IF f.ex THEN Avail(f.len, ev.p, ev.n) ELSE 0
        any == "req" \in DOMAIN ev /\ ev.req IN
    IF ev.n = 0 THEN (IF ev.r = "ok" /\ ev.got = 0 /\ ev.same THEN "" ELSE "an empty read failed or delivered something")
    ELSE IF any /\ (ev.ua # h.ua \/ ev.ck # h.ck) THEN "an option given when creating the stream is not honoured"
    ELSE IF h.mode \in {"e404", "e500", "e403", "notfollowed", "refused", "cut"} \/ ~f.ex THEN (IF ev.r = "ok" THEN "a read which the server did not answer is reported as a success" ELSE "")
    ELSE IF Huge(ev) \/ n = 0 THEN (IF ev.r = "ok" /\ ev.got # 0 THEN "bytes delivered beyond the end of the file" ELSE "")
    ELSE IF h.mode \in {"f", "chunked"} THEN (IF ev.r # "ok" THEN "a read failed: " \o ev.r ELSE IF Exact(f, ev, n) THEN "" ELSE "a read delivered other bytes than the file holds")
    ELSE IF h.mode = "whole" /\ ev.p = Zero /\ Diff(Zero, f.len) <= ev.n THEN (IF ev.r # "ok" THEN "a read failed: " \o ev.r ELSE IF Exact(f, ev, n) THEN "" ELSE "a read delivered other bytes than the file holds")
    ELSE IF ev.r = "ok" /\ ~Exact(f, ev, n) THEN "a read delivered other bytes than the file holds" ELSE ""
JudgeRead(st, ev) ==
    LET f == File(st, ev) n == Avail(f.len, ev.p, ev.n) IN
    IF st.h[ev.h].kind \in HttpKinds THEN JudgeHttp(st, ev)
    ELSE IF st.h[ev.h].dir THEN (IF ev.r = "ok" /\ ev.n > 0 THEN "a read which cannot be done is not reported as an error" ELSE "")
    ELSE IF Huge(ev) THEN (IF ev.r = "ok" /\ ev.got # 0 THEN "bytes delivered beyond the end of the file" ELSE "")
    ELSE IF ev.r # "ok" THEN "a read failed: " \o ev.r
    ELSE IF ev.got # n THEN "a read reports the wrong number of bytes"
    ELSE IF ~ev.same THEN "a read changed the buffer beyond what it delivered"
    ELSE IF ~Agrees(f, ev.p, ev.d) THEN "a read delivered other bytes than the file holds" ELSE ""
\* with a file size limit L (position), only the part below L can be written
Limited(ev) == "lim" \in DOMAIN ev
Can(ev) == IF Limited(ev) THEN Avail(ev.lim, ev.p, Len(ev.d)) ELSE Len(ev.d)
JudgeWrite(st, ev) ==
    LET c == Can(ev) IN
    IF c = Len(ev.d) THEN (IF ev.r # "ok" THEN "a write failed: " \o ev.r ELSE IF ev.got # Len(ev.d) THEN "a write reports the wrong number of bytes" ELSE "")
    ELSE IF ev.r = "ok" /\ ev.got # c THEN "a write which was cut short is reported as complete"
    ELSE ""
JudgeRaw(st, ev) ==
    LET f == st.f IN
    IF ev.ex # f.ex THEN "the file exists and should not (or the reverse)"
    ELSE IF ~f.ex THEN ""
    ELSE IF ev.len # f.len THEN "the file has the wrong length"
    ELSE IF \E k \in 1..Len(ev.w) : ~Agrees(f, ev.w[k].p, ev.w[k].d) THEN "the file does not hold what was written" ELSE ""
Judge(st, ev) ==
    CASE ev.o = "file" -> ""
      [] ev.o = "open" -> (LET x == Opens(st.f, ev) IN
            IF x = 1 /\ ev.r # "ok" THEN "a stream could not be opened: " \o ev.r
            ELSE IF x = 0 /\ ev.r = "ok" THEN "a stream was opened which must be refused" ELSE "")
      [] ev.o = "read" -> JudgeRead(st, ev)
      [] ev.o = "write" -> JudgeWrite(st, ev)
      [] ev.o = "close" -> ""
      [] ev.o = "raw" -> JudgeRaw(st, ev)
      [] ev.o = "conc" -> (IF \E k \in 1..Len(ev.q) : JudgeRead(st, ev.q[k]) # "" THEN "a concurrent read delivered something else" ELSE "")
      [] ev.o = "bag" -> (IF (ev.rc = 0) # ev.valid THEN "stream options are accepted or refused wrongly" ELSE IF ev.issued # (ev.rc = 0) THEN "a stream was created although an error is reported"
            ELSE IF ev.valid /\ (ev.ua # ev.xua \/ ev.ck # ev.xck) THEN "an option given when creating the stream is not honoured" ELSE "")
      [] ev.o = "factory" -> (IF ev.unknown # "null" THEN "a stream of an unknown class was created" ELSE IF ~ev.bounds THEN "class information beyond the list" ELSE IF \E k \in 1..Len(ev.c) : ~ev.c[k] THEN "a listed stream class cannot be used" ELSE "")
After(st, ev) ==
    CASE ev.o = "file" -> [f |-> IF ev.ex THEN LET RECURSIVE go(_, _) go(f, k) == IF k > Len(ev.w) THEN f ELSE go(Write(f, ev.w[k].p, ev.w[k].d), k + 1) IN go(Empty, 1) ELSE NoFile, h |-> << >>]
      [] ev.o = "open" -> IF ev.r = "ok" THEN AfterOpen(st, ev) ELSE st
      [] ev.o = "write" -> [st EXCEPT !.f = Write(@, ev.p, IF ev.r = "ok" THEN Prefix(ev.d, ev.got) ELSE << >>)]
      [] OTHER -> st
Start == [f |-> NoFile, h |-> << >>]
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = Start /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] v == Judge(s, ev) IN
             /\ bad' = v /\ i' = i + 1 /\ s' = (IF v = "" THEN After(s, ev) ELSE s) /\ UNCHANGED e
             /\ (v # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o v))
Spec == Init /\ [][Next]_vars
=============================================================================
