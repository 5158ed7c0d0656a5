------------------------------ MODULE CompTrace ------------------------------
(* Conformance of recorded accessor calls with Composition (P11-P14).          *)
EXTENDS Composition, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
VARIABLES e, i, s, bad
vars == << e, i, s, bad >>
Fld(ev, k, d) == IF k \in DOMAIN ev THEN ev[k] ELSE d
Own(ev) == Fld(ev, "own", FALSE)
HasSf(ev) == "sf" \in DOMAIN ev /\ ~Fld(ev, "nop", FALSE)
Sf(ev) == IF HasSf(ev) THEN Rng(ev.sf) ELSE {}
Srt(ev) == Fld(ev, "nop", FALSE) \/ Fld(ev, "srt", TRUE)
Aware(ev) == (ev.kind = "x" \/ ~Fld(ev, "nop", FALSE)) /\ Fld(ev, "mask", FALSE)
BgKind(ev) == IF "bg" \in DOMAIN ev /\ ~Fld(ev, "nop", FALSE) THEN "bg" ELSE IF Own(ev) THEN "pre" ELSE "any"
Scale(ev) == Pow(ev.f, ev.l)
Frac(ev, v) == (v * ev.zn) \div 64
ImgW(ev) == CASE ev.kind = "x" -> ev.ow [] ev.kind = "t" -> IF Own(ev) THEN ev.ow ELSE ev.roi[3] [] ev.kind = "p" -> IF Own(ev) THEN ev.ow ELSE ev.roi[3] \div Scale(ev) [] OTHER -> Frac(ev, ev.roi[3])
ImgH(ev) == CASE ev.kind = "x" -> ev.oh [] ev.kind = "t" -> IF Own(ev) THEN ev.oh ELSE ev.roi[4] [] ev.kind = "p" -> IF Own(ev) THEN ev.oh ELSE ev.roi[4] \div Scale(ev) [] OTHER -> Frac(ev, ev.roi[4])
DocNone == [ tiles |-> << >>, dfr |-> 1 ]
(* the tiles relevant for the call, with geometry and rank *)
Plane(d, ev) == { t \in Rng(d.tiles) : CoordMatch(t, ev.c) }
(* the overloads without frame of reference use the raw coordinate system *)
Fr(ev) == IF ev.fr = 1 /\ Fld(ev, "plain", FALSE) THEN 2 ELSE ev.fr
Pos0(d, ev) == RawPos(d.tiles, Fr(ev), d.dfr, ev.roi[1], ev.roi[2])
SetToSeq(S) == LET RECURSIVE F(_) F(X) == IF X = {} THEN << >> ELSE LET x == CHOOSE y \in X : TRUE IN << x >> \o F(X \ {x}) IN F(S)
Geo(t, rank, FX(_, _), FY(_, _), w, h) == [ t |-> t, rank |-> rank, ax |-> [ k \in 0..(w - 1) |-> FX(t, k) ], ay |-> [ k \in 0..(h - 1) |-> FY(t, k) ] ]
TilesT(d, ev) ==
    LET p == Pos0(d, ev) w == ImgW(ev) h == ImgH(ev)
        S == { t \in Plane(d, ev) : Layer0(t) /\ SceneOk(t, HasSf(ev), Sf(ev)) /\ Intersects(t, << p[1], p[2], w, h >>) }
        FX(t, k) == AxisPlain(t.x - p[1], t.pw, k)
        FY(t, k) == AxisPlain(t.y - p[2], t.ph, k)
    IN SetToSeq({ Geo(t, IF Srt(ev) THEN MRank(t) ELSE 0, FX, FY, w, h) : t \in S })
TilesP(d, ev) ==
    LET p == Pos0(d, ev) w == ImgW(ev) h == ImgH(ev) sc == Scale(ev)
        S == { t \in Plane(d, ev) : LayerNo(t, ev.f) = ev.l /\ SceneOk(t, HasSf(ev), Sf(ev)) /\ Intersects(t, << p[1], p[2], w * sc, h * sc >>) }
        FX(t, k) == AxisLayer(t.x - p[1], sc, t.pw, k)
        FY(t, k) == AxisLayer(t.y - p[2], sc, t.ph, k)
    IN SetToSeq({ Geo(t, IF Srt(ev) THEN MRank(t) ELSE 0, FX, FY, w, h) : t \in S })
Min_(t) == t.w \div t.pw       \* generated tiles have exact integer minification
TilesS(d, ev) ==
    LET p == Pos0(d, ev) w == ImgW(ev) h == ImgH(ev) roi == << p[1], p[2], ev.roi[3], ev.roi[4] >>
        Sc == { k \in Scenes(Rng(d.tiles)) : (HasSf(ev) => k \in Sf(ev)) /\ Intersects(LET b == Box({ TileInfo(t) : t \in { u \in Rng(d.tiles) : HasDim(u, "S") /\ Pos(u, "S") = k } }) IN [ x |-> b[1], y |-> b[2], w |-> b[3], h |-> b[4] ], roi) }
        Cand == { t \in Plane(d, ev) : Intersects(t, roi) }
        Groups == IF Cardinality(Sc) <= 1 THEN { [ g |-> 0, T |-> { t \in Cand : HasDim(t, "S") => Pos(t, "S") \in Sc } ] }
                  ELSE { [ g |-> k, T |-> { t \in Cand : HasDim(t, "S") /\ Pos(t, "S") = k } ] : k \in Sc }
        Suit(T) == { t \in T : 100 * ev.zn * Min_(t) <= 6720 }       \* no coarser than the zoom (with 5% tolerance)
        F0(T) == MaxOf({ Min_(t) : t \in Suit(T) })
        Incl(T) == IF Suit(T) = {} THEN {} ELSE { t \in Suit(T) : 19 * Min_(t) > 10 * F0(T) }
        FX(t, k) == IF ev.zn = 64 THEN AxisPlain(t.x - p[1], t.pw, k) ELSE AxisScale(t.x, t.pw, Min_(t), p[1], ev.roi[3], w, k)
        FY(t, k) == IF ev.zn = 64 THEN AxisPlain(t.y - p[2], t.ph, k) ELSE AxisScale(t.y, t.ph, Min_(t), p[2], ev.roi[4], h, k)
        Ms == { MRank(t) : t \in Cand }
        R(g, t) == Cardinality({ k \in Sc : k < g.g }) * 1000000 + (100 - Min_(t)) * 1000 + (IF Srt(ev) /\ Layer0(t) THEN Cardinality({ m \in Ms : m < MRank(t) }) ELSE 0)
    IN SetToSeq(UNION { { Geo(t, R(g, t), FX, FY, w, h) : t \in Incl(g.T) } : g \in Groups })
Relevant(d, ev) == CASE ev.kind = "t" -> TilesT(d, ev) [] ev.kind = "p" -> TilesP(d, ev) [] OTHER -> TilesS(d, ev)
(* ---- verdicts ---- *)
AutoErr(d, ev) == Fld(ev, "dpt", -1) < 0 /\ AutoTypes(d.tiles, ev.c) = {}
MayErr(d, ev) == Fld(ev, "dpt", -1) < 0 /\ "C" \notin GivenDims(ev.c) /\ DimVals(d.tiles, "C") # {}
SizeErr(ev) == (ev.kind = "p" /\ (ImgW(ev) = 0 \/ ImgH(ev) = 0)) \/ (ev.kind = "s" /\ Own(ev) /\ (ImgW(ev) # ev.ow \/ ImgH(ev) # ev.oh))
Zero(ev) == ImgW(ev) = 0 \/ ImgH(ev) = 0
ImageDiff(d, ev, T) ==
    IF ev.iw # ImgW(ev) \/ ev.ih # ImgH(ev) THEN "the image has a wrong size"
    ELSE IF Fld(ev, "dpt", -1) >= 0 /\ ev.ipt # ev.dpt THEN "the image has not the requested pixel type"
    ELSE IF Fld(ev, "dpt", -1) < 0 /\ ev.ipt \notin AutoTypes(d.tiles, ev.c) THEN "the image has not the pixel type of the channel"
    ELSE IF ~ev.gok THEN "bytes outside the destination bitmap were modified, or it was left locked"
    ELSE LET bp == { q \in (0..(ev.iw - 1)) \X (0..(ev.ih - 1)) : PixelBad(T, Aware(ev), Fld(ev, "brd", FALSE), BgKind(ev), Fld(ev, "bg", <<0, 0, 0>>), Fld(ev, "pre", 0), ev.ipt, Obs(ev.px, ev.ipt, ev.iw, q[1], q[2]), q[1], q[2]) }
         IN IF bp = {} THEN "" ELSE "a pixel of the composed image is wrong at " \o ToString(CHOOSE q \in bp : TRUE)
JudgeGet(d, ev) ==
    IF ~PlaneOk(d.tiles, ev.c) \/ AutoErr(d, ev) \/ SizeErr(ev) THEN (IF ev.r = "ok" THEN "a request that must be refused was answered" ELSE IF ~ev.gok THEN "a refused request modified bytes outside the destination" ELSE "")
    ELSE IF Zero(ev) THEN ""
    ELSE LET T == Relevant(d, ev) dp == Fld(ev, "dpt", -1)
             unsup == IF dp >= 0 THEN \E n \in DOMAIN T : ~Supported(T[n].t.pt, dp) ELSE \E n \in DOMAIN T, a \in AutoTypes(d.tiles, ev.c) : ~Supported(T[n].t.pt, a) IN
         IF ev.r # "ok" THEN (IF unsup \/ MayErr(d, ev) THEN "" ELSE "the request was refused: " \o ev.r)
         ELSE IF unsup THEN "" ELSE ImageDiff(d, ev, T)
(* the composition of given bitmaps: they are placed one after the other *)
JudgeX(d, ev) ==
    LET w == ev.ow h == ev.oh t(n) == d.tiles[ev.seq[n] + 1]
        FX(u, k) == AxisPlain(u.x - ev.roi[1], u.pw, k)
        FY(u, k) == AxisPlain(u.y - ev.roi[2], u.ph, k)
        T == [ n \in 1..Len(ev.seq) |-> Geo(t(n), n, FX, FY, w, h) ]
    IN IF ev.r # "ok" THEN (IF \E n \in DOMAIN T : ~Supported(T[n].t.pt, ev.dpt) THEN (IF ev.gok THEN "" ELSE "a refused composition modified bytes outside the destination") ELSE "the composition was refused: " \o ev.r)
       ELSE IF \E n \in DOMAIN T : ~Supported(T[n].t.pt, ev.dpt) THEN "" ELSE ImageDiff(d, ev, T)
(* scaled images: the corner of the pixel lies exactly on the edge of a tile (up to floating point noise) *)
OnEdge(d, ev, x, y) == /\ ev.kind = "s" /\ ev.zn # 64 /\ Fld(ev, "vis", FALSE)
                       /\ LET p == Pos0(d, ev) IN \E t \in Plane(d, ev) :
                            \/ (t.x + t.w - p[1]) * ev.iw = x * ev.roi[3] \/ (t.x - p[1]) * ev.iw = x * ev.roi[3]
                            \/ (t.y + t.h - p[2]) * ev.ih = y * ev.roi[4] \/ (t.y - p[2]) * ev.ih = y * ev.roi[4]
Judge2(d, ev) ==
    IF ev.r0 # "ok" THEN ""        \* a refusal because of a tile that is not visible anyway may vanish
    ELSE IF ev.r # "ok" THEN "an optimisation changes the outcome: " \o ev.r \o " instead of " \o ev.r0
    ELSE IF (ev.iw # ev.iw0 \/ ev.ih # ev.ih0 \/ ev.ipt # ev.ipt0) THEN "an optimisation changes size or pixel type of the image"
    ELSE IF BgKind(ev) = "any" \/ ev.px = ev.px0 THEN ""
    ELSE LET n == NC(ev.ipt)
             df == { k \in 0..(ev.iw * ev.ih - 1) : Obs(ev.px, ev.ipt, ev.iw, k % ev.iw, k \div ev.iw) # Obs(ev.px0, ev.ipt, ev.iw, k % ev.iw, k \div ev.iw) }
             inner == { k \in df : ~OnEdge(d, ev, k % ev.iw, k \div ev.iw) }
         IN IF inner # {} THEN "an optimisation changes the image at " \o ToString(<< (CHOOSE k \in inner : TRUE) % ev.iw, (CHOOSE k \in inner : TRUE) \div ev.iw >>)
            ELSE "the visibility check changes a pixel exactly on a tile edge of a scaled image"
Judge(d, ev) == IF ev.op # "get" THEN ""
    ELSE IF PROP = "P14" THEN (IF "r0" \in DOMAIN ev THEN Judge2(d, ev) ELSE "")
    ELSE IF ev.kind = "x" THEN (IF PROP = "P11" THEN JudgeX(d, ev) ELSE "")
    ELSE IF (PROP = "P11" /\ ev.kind = "t") \/ (PROP = "P12" /\ ev.kind = "p") \/ (PROP = "P13" /\ ev.kind = "s") \/ PROP = "P08" THEN JudgeGet(d, ev) ELSE ""
Init == e \in 1..Len(Eps) /\ i = 0 /\ s = DocNone /\ bad = ""
Next == /\ bad = "" /\ i < Len(Eps[e].ev)
        /\ LET ev == Eps[e].ev[i + 1] v == Judge(s, ev) IN
             /\ bad' = v /\ i' = i + 1 /\ UNCHANGED e
             /\ s' = IF ev.op = "doc" THEN [ tiles |-> ev.tiles, dfr |-> ev.dfr ] ELSE s
             /\ (v # "" => PrintT("BAD|" \o ToString(e) \o "|" \o ToString(i + 1) \o "|" \o v))
Spec == Init /\ [][Next]_vars
=============================================================================
