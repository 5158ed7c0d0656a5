------------------------------- MODULE CziDoc -------------------------------
(* The abstract document: what writer, editor and reader of a CZI file agree   *)
(* on, independent of the bytes.  All operators here are pure; the state       *)
(* machines (DocTrace: conformance, CziFile: file level) are built on them.    *)
(*                                                                             *)
(* An item is a record                                                         *)
(*   c   sequence of <<dimension letter, value>> in canonical order            *)
(*   hm,m  tile index present / value                                          *)
(*   x,y,w,h  logical rectangle    pw,ph  stored size                          *)
(*   pt,cmp,pyr  pixel type, compression id, pyramid type                      *)
(*   d,md,at  contents, as <<length, digest>>                                  *)
EXTENDS Integers, Sequences, FiniteSets

Rng(q) == { q[n] : n \in DOMAIN q }
Cnt(q, x) == Cardinality({ n \in DOMAIN q : q[n] = x })
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Rng(p) : Cnt(p, x) = Cnt(q, x)
SubBag(p, q) == \A x \in Rng(p) : Cnt(p, x) <= Cnt(q, x)
SMap(f(_), q) == [ n \in DOMAIN q |-> f(q[n]) ]
Without(q, k) == [ n \in 1..(Len(q) - 1) |-> IF n < k THEN q[n] ELSE q[n+1] ]
MinOf(S) == CHOOSE v \in S : \A u \in S : v <= u
MaxOf(S) == CHOOSE v \in S : \A u \in S : v >= u
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Info(it) == [ c |-> it.c, hm |-> it.hm, m |-> it.m, x |-> it.x, y |-> it.y, w |-> it.w, h |-> it.h,
              pw |-> it.pw, ph |-> it.ph, pt |-> it.pt, cmp |-> it.cmp, pyr |-> it.pyr ]
Item(it) == [ i |-> Info(it), d |-> it.d, md |-> it.md, at |-> it.at ]
Att(a) == [ i |-> [ g |-> a.g, ft |-> a.ft, nm |-> a.nm ], d |-> a.d ]
NoMeta == [ has |-> FALSE, d |-> <<0, 0>>, a |-> <<0, 0>> ]

Dims(i) == { i.c[n][1] : n \in DOMAIN i.c }
Pos(i, d) == LET n == CHOOSE n \in DOMAIN i.c : i.c[n][1] = d IN i.c[n][2]
HasDim(i, d) == \E n \in DOMAIN i.c : i.c[n][1] = d
Layer0(i) == i.w = i.pw /\ i.h = i.ph

(* ---------------- acceptance ---------------- *)
ZNum(i) == IF i.pw > i.ph THEN i.pw ELSE i.ph
ZDen(i) == IF i.pw > i.ph THEN i.w ELSE i.h
SameZoom(a, b) == ZNum(a) * ZDen(b) = ZNum(b) * ZDen(a)
WriterDup(a, b) == /\ SameZoom(a, b) /\ a.c = b.c
                   /\ \/ a.hm /\ b.hm /\ a.m = b.m
                      \/ ~a.hm /\ ~b.hm /\ a.x = b.x /\ a.y = b.y
EditorDup(a, b) == a.c = b.c /\ a.hm /\ b.hm /\ a.m = b.m /\ Layer0(a) /\ Layer0(b)
InBounds(i, hb, bounds, hmb, mb) ==
    hb => /\ Dims(i) = { bounds[n][1] : n \in DOMAIN bounds }
          /\ \A n \in DOMAIN bounds : Pos(i, bounds[n][1]) >= bounds[n][2] /\ Pos(i, bounds[n][1]) < bounds[n][2] + bounds[n][3]
          /\ hmb => i.hm /\ i.m >= mb[1] /\ i.m <= mb[2]
ArgOk(it) == it.w >= 0 /\ it.h >= 0 /\ it.pw >= 0 /\ it.ph >= 0 /\ ~it.nullf /\ it.cmp # -2000000000   \* CompressionMode::Invalid, clamped by the recorder

(* ---------------- statistics: a function of the bag of infos ---------------- *)
Box(S) == IF S = {} THEN << >> ELSE
    LET x0 == MinOf({ i.x : i \in S }) y0 == MinOf({ i.y : i \in S })
        x1 == MaxOf({ i.x + i.w : i \in S }) y1 == MaxOf({ i.y + i.h : i \in S })
    IN << x0, y0, x1 - x0, y1 - y0 >>
DimOrder == << "Z", "C", "T", "R", "S", "I", "H", "V", "B" >>
DimStats(S) ==
    LET R(n) == { Pos(i, DimOrder[n]) : i \in { j \in S : HasDim(j, DimOrder[n]) } }
        ns == { n \in 1..9 : R(n) # {} }
    IN { << DimOrder[n], MinOf(R(n)), MaxOf(R(n)) - MinOf(R(n)) + 1 >> : n \in ns }
Scenes(S) == { Pos(i, "S") : i \in { j \in S : HasDim(j, "S") } }
SceneStats(S) == { [ s |-> k, bb |-> Box({ i \in S : HasDim(i, "S") /\ Pos(i, "S") = k }),
                     bb0 |-> Box({ i \in S : HasDim(i, "S") /\ Pos(i, "S") = k /\ Layer0(i) }) ] : k \in Scenes(S) }
StatsDiff(st, infos) ==
    LET S == Rng(infos) ms == { i.m : i \in { j \in S : j.hm } } IN
    IF st.cnt # Len(infos) THEN "subblock count"
    ELSE IF st.bb # Box(S) THEN "bounding box"
    ELSE IF st.bb0 # Box({ i \in S : Layer0(i) }) THEN "layer-0 bounding box"
    ELSE IF Rng(st.dims) # DimStats(S) THEN "dimension bounds"
    ELSE IF Rng(st.sc) # SceneStats(S) THEN "scene bounding boxes"
    ELSE IF st.mv # (ms # {}) THEN "tile index range validity"
    ELSE IF ms # {} /\ (st.mmin # MinOf(ms) \/ st.mmax # MaxOf(ms)) THEN "tile index range"
    ELSE ""

(* the metadata prepared by the writer states the extents and, per channel, the pixel type *)
PtName(pt) == CASE pt = 0 -> "Gray8" [] pt = 1 -> "Gray16" [] pt = 2 -> "Gray32Float" [] pt = 3 -> "Bgr24" [] pt = 4 -> "Bgr48" [] pt = 8 -> "Bgr96Float" [] pt = 9 -> "Bgra32" [] pt = 10 -> "Gray64ComplexFloat" [] pt = 11 -> "Bgr192ComplexFloat" [] OTHER -> ""
PrepDiff(ev, infos, Str(_)) ==
    LET S == Rng(infos) ms == { i.m : i \in { j \in S : j.hm } } ds == DimStats(S) b == Box(S)
        sizes == { << "X", b[3] >>, << "Y", b[4] >> } \cup { << d[1], d[3] >> : d \in ds } \cup (IF ms = {} THEN {} ELSE { << "M", MaxOf(ms) - MinOf(ms) + 1 >> })
        cs == { d \in ds : d[1] = "C" } c == CHOOSE d \in cs : TRUE
        Types(k) == { PtName(i.pt) : i \in { j \in S : HasDim(j, "C") /\ Pos(j, "C") = k } }
        Id(k) == (IF ev.nm = 0 THEN "Channel:" ELSE "K") \o Str(k)
        Name(k) == IF ev.nm = 2 THEN "N" \o Str(k) ELSE ""
    IN IF S = {} THEN ""
       ELSE IF Rng(ev.sz) # sizes \/ Len(ev.sz) # Cardinality(sizes) THEN "prepared metadata: sizes"
       ELSE IF Len(ev.chs) # (IF cs = {} THEN 0 ELSE c[3]) THEN "prepared metadata: number of channels"
       ELSE IF \E n \in DOMAIN ev.chs : ev.chs[n][1] # Id(c[2] + n - 1) \/ ev.chs[n][2] # Name(c[2] + n - 1) THEN "prepared metadata: channel id or name"
       ELSE IF \E n \in DOMAIN ev.chs : LET T == Types(c[2] + n - 1) IN (IF T = {} THEN ev.chs[n][3] # "" ELSE ev.chs[n][3] \notin T) THEN "prepared metadata: pixel type of a channel"
       ELSE IF ev.ipt \notin { PtName(i.pt) : i \in S } THEN "prepared metadata: pixel type of the image" ELSE ""
(* minification factors are matched against tables of <<factor*10, tolerance*10, layer>> *)
Tab2 == << <<20,1,1>>, <<40,2,2>>, <<80,4,3>>, <<160,8,4>>, <<320,10,5>>, <<640,10,6>>, <<1280,10,7>>, <<2560,20,8>>, <<5120,40,9>>, <<10240,100,10>> >>
Tab3 == << <<30,1,1>>, <<90,2,2>>, <<270,8,3>>, <<810,15,4>>, <<2430,20,5>>, <<7290,50,6>>, <<21870,150,7>> >>
InTab(i, e) == LET n == IF i.pw > i.ph THEN i.w ELSE i.h  q == IF i.pw > i.ph THEN i.pw ELSE i.ph
               IN 10 * n >= (e[1] - e[2]) * q /\ 10 * n <= (e[1] + e[2]) * q
LayerOf(i) == IF Layer0(i) THEN <<0, 0>>
    ELSE IF \E n \in DOMAIN Tab2 : InTab(i, Tab2[n]) THEN <<2, Tab2[CHOOSE n \in DOMAIN Tab2 : InTab(i, Tab2[n])][3]>>
    ELSE IF \E n \in DOMAIN Tab3 : InTab(i, Tab3[n]) THEN <<3, Tab3[CHOOSE n \in DOMAIN Tab3 : InTab(i, Tab3[n])][3]>>
    ELSE <<255, 255>>
SceneKey(i) == IF HasDim(i, "S") THEN Pos(i, "S") ELSE -1000000
PyrStats(infos) ==
    { << SceneKey(infos[n]), LayerOf(infos[n])[1], LayerOf(infos[n])[2],
         Cardinality({ k \in DOMAIN infos : SceneKey(infos[k]) = SceneKey(infos[n]) /\ LayerOf(infos[k]) = LayerOf(infos[n]) }) >> : n \in DOMAIN infos }
PyrFlat(py) == UNION { { << py[n].s, py[n].l[k][1], py[n].l[k][2], py[n].l[k][3] >> : k \in DOMAIN py[n].l } : n \in DOMAIN py }
PyrLen(py) == LET RECURSIVE Sum(_) Sum(n) == IF n = 0 THEN 0 ELSE Len(py[n].l) + Sum(n - 1) IN Sum(Len(py))
(* the layers of a scene come finest first; what cannot be attributed to a layer comes last *)
RECURSIVE PowTo(_, _, _)
PowTo(b, n, acc) == IF n = 0 \/ acc > 1000000 THEN acc ELSE PowTo(b, n - 1, acc * b)
PyrRank(t) == IF t[1] = 0 /\ t[2] = 0 THEN 0 ELSE IF t[1] = 255 /\ t[2] = 255 THEN 2000000000 ELSE PowTo(t[1], t[2], 1)
PyrOrdered(py) == \A n \in DOMAIN py : \A k \in 1..(Len(py[n].l) - 1) : PyrRank(py[n].l[k]) <= PyrRank(py[n].l[k + 1])
PyrDiff(py, infos) == IF ~PyrOrdered(py) THEN "order of the pyramid layers" ELSE IF PyrFlat(py) # PyrStats(infos) \/ PyrLen(py) # Cardinality(PyrStats(infos)) THEN "pyramid statistics" ELSE ""

(* ---------------- queries ---------------- *)
Intersects(i, r) == Max2(i.x, r[1]) < Min2(i.x + i.w, r[1] + r[3]) /\ Max2(i.y, r[2]) < Min2(i.y + i.h, r[2] + r[4])
CoordMatch(i, c) == \A n \in DOMAIN c : HasDim(i, c[n][1]) /\ Pos(i, c[n][1]) = c[n][2]
Selected(i, q) == (q.hc => CoordMatch(i, q.c)) /\ (q.hr => Intersects(i, q.roi)) /\ (q.l0 => Layer0(i))
=============================================================================
