----------------------------- MODULE Composition -----------------------------
(* What the single-channel accessors must return: the painter's algorithm.     *)
(* A tile contributes, per axis and destination coordinate k, a set of source  *)
(* coordinates it may show there (s) and whether it certainly does (m); a rank *)
(* gives the painting order.  A destination pixel must then show               *)
(*   a sample of a tile that may cover it and is not below a tile that         *)
(*   certainly covers it, or - if none certainly covers it - the background.   *)
EXTENDS CziDoc, Pixels
TileInfo(t) == [ c |-> t.c, x |-> t.x, y |-> t.y, w |-> t.w, h |-> t.h, pw |-> t.pw, ph |-> t.ph ]
MRank(t) == IF t.hm THEN t.m + 1 ELSE 0
DimVals(ts, d) == { Pos(t, d) : t \in { u \in Rng(ts) : HasDim(u, d) } }
PlaneDims == { "Z", "C", "T", "R", "I", "H", "V", "B" }
GivenDims(c) == { c[n][1] : n \in DOMAIN c }
GivenVal(c, d) == LET n == CHOOSE n \in DOMAIN c : c[n][1] = d IN c[n][2]
PlaneOk(ts, c) == /\ "S" \notin GivenDims(c)
                  /\ \A d \in PlaneDims : LET V == DimVals(ts, d) IN
                        IF d \in GivenDims(c) THEN V # {} /\ GivenVal(c, d) >= MinOf(V) /\ GivenVal(c, d) <= MaxOf(V)
                        ELSE V = {} \/ MinOf(V) = MaxOf(V)
Origin(ts) == LET b == Box({ TileInfo(t) : t \in { u \in Rng(ts) : Layer0(u) } }) IN IF b = << >> THEN <<0, 0>> ELSE << b[1], b[2] >>
RawFrame(fr, dfr) == LET f == IF fr = 1 THEN dfr ELSE fr IN f # 3
RawPos(ts, fr, dfr, x, y) == IF RawFrame(fr, dfr) THEN << x, y >> ELSE << x + Origin(ts)[1], y + Origin(ts)[2] >>
(* pixel types a call without explicit type may choose *)
AutoTypes(ts, c) == IF "C" \in GivenDims(c) /\ DimVals(ts, "C") # {} THEN { t.pt : t \in { u \in Rng(ts) : HasDim(u, "C") /\ Pos(u, "C") = GivenVal(c, "C") } } ELSE { t.pt : t \in Rng(ts) }
Pow(f, n) == LET RECURSIVE P(_) P(k) == IF k = 0 THEN 1 ELSE f * P(k - 1) IN P(n)
LayerNo(t, f) == LET d == IF t.pw > t.ph THEN t.w ELSE t.h q == IF t.pw > t.ph THEN t.pw ELSE t.ph r == (2 * d + q) \div (2 * q)
                 IN MinOf({ l \in 0..12 : Pow(f, l) >= r })
SceneOk(t, hs, sf) == hs /\ HasDim(t, "S") => Pos(t, "S") \in sf
(* per axis: plain placement *)
AxisPlain(o, n, k) == LET v == k - o IN IF v >= 0 /\ v < n THEN [ s |-> { v }, m |-> TRUE ] ELSE [ s |-> { }, m |-> FALSE ]
(* per axis: position divided by the layer scale, truncated *)
AxisLayer(d, sc, n, k) == AxisPlain(IF d >= 0 THEN d \div sc ELSE -((-d) \div sc), n, k)
(* per axis: nearest neighbour scaling; t0,n,f: tile position, stored size, minification; r0,r,W: roi position, extent, destination extent *)
AxisScale(t0, n, f, r0, r, W, k) ==
    LET N == (r0 - t0) * W + k * r       \* location of the pixel's corner in the tile, in units of 1/(f*W) source pixels
        u == f * W
        may == N + r > 0 /\ N <= n * u
        must == (N > 0 \/ (k = 0 /\ N = 0)) /\ (IF u <= r THEN N < n * u ELSE N <= (n - 1) * u)
        near == { v \in 0..(n - 1) : Abs(v * u - N) <= u }
        edge == (IF N < 0 THEN { 0 } ELSE { }) \cup (IF N > (n - 1) * u THEN { n - 1 } ELSE { })
    IN [ s |-> IF may THEN near \cup edge ELSE { }, m |-> must ]
(* judge one image. T: sequence of [t, rank, ax, ay]; maskaware; bgk "bg"/"pre"/"any" *)
MaskOn(q, aware, x, y) == ~(aware /\ q.t.hk) \/ (x < q.t.mw /\ y < q.t.mh /\ MaskBit(q.t.ms, x, y))
(* the edge of the visible part of a tile; with tile borders the pixels there may be black *)
End(f, k) == k - 1 \notin DOMAIN f \/ k + 1 \notin DOMAIN f \/ f[k - 1].s = {} \/ f[k + 1].s = {}
Edge(q, aware, x, y) == End(q.ax, x) \/ End(q.ay, y) \/ (aware /\ q.t.hk /\ (q.ax[x].s = { q.t.mw - 1 } \/ q.ay[y].s = { q.t.mh - 1 }))
PixelBad(T, aware, border, bgk, bg, pre, pt, o, x, y) ==
    LET may == { n \in DOMAIN T : T[n].ax[x].s # {} /\ T[n].ay[y].s # {} }
        must == { n \in may : T[n].ax[x].m /\ T[n].ay[y].m /\ \A u \in T[n].ax[x].s, v \in T[n].ay[y].s : MaskOn(T[n], aware, u, v) }
        top == IF must = {} THEN -1000000 ELSE MaxOf({ T[n].rank : n \in must })
        hit == \E n \in may : /\ T[n].rank >= top
                              /\ \E u \in T[n].ax[x].s, v \in T[n].ay[y].s : MaskOn(T[n], aware, u, v) /\ ConvOk(T[n].t.pt, pt, Px(T[n].t.pt, T[n].t.s, u, v), o)
        line == border /\ (\A k \in DOMAIN o : o[k] = 0) /\ \E n \in may : T[n].rank >= top /\ Edge(T[n], aware, x, y)
        back == must = {} /\ (CASE bgk = "bg" -> BgOk(pt, bg, o) [] bgk = "pre" -> (\A k \in DOMAIN o : o[k] = (IF pt = 2 THEN 4096 * pre ELSE pre)) [] OTHER -> TRUE)
    IN ~hit /\ ~back /\ ~line
=============================================================================
