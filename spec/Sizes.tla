------------------------------- MODULE Sizes -------------------------------
(* P12.  Lengths, areas and volumes, and sizes of the part of an entity inside *)
(* a domain.  Sizes are sums of rational multiples of 1 and pi and of elliptic *)
(* arcs between known points; contained parts are computed by exact clipping.  *)
EXTENDS ArcPoly, Rand, Json, FiniteSets
CONSTANTS Lo, Hi, Mode
VARIABLES seed
Rnd(k, n) == R(seed, k, n)
Pick(s, k) == PickSeq(s, Rnd(k, 30000))
SetPick(S, k) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = Rnd(k, Cardinality(S))
T0 == <<Rnd(3, 9) - 4, Rnd(4, 9) - 4>>
\* ------------------------------------------------------------ plain sizes
APoly == MkPoly(1 + Rnd(1, NPoly), Rnd(5, 4), Rnd(6, 2), T0)
Rr == Pick(<<5, 13, 25, 65, 1>>, 7)
KK == Pick(<< <<1, 1>>, <<1, 2>>, <<3, 5>>, <<1, 10>>, <<9, 10>>, <<1, 1>> >>, 8)
NPts == Len(CirclePts(Rr))
\* arcs split additively at every node in between: i -> j -> k
PlainCase == LET i == 1 + Rnd(9, NPts) j == 1 + Rnd(10, NPts) k == 1 + Rnd(11, NPts) IN
  [poly |-> APoly, area2 |-> Shoe2(PolyNodes(APoly.c)),
   seg |-> << <<Rnd(12, 19) - 9, Rnd(13, 19) - 9, Rnd(14, 19) - 9>>, <<Rnd(15, 19) + 10, Rnd(16, 19) - 9, Rnd(17, 19) - 9>> >>,
   r |-> Rr, k |-> KK, ij |-> <<CirclePts(Rr)[i], CirclePts(Rr)[j]>>, mid |-> CirclePts(Rr)[k],
   \* k lies on the arc from i to j: the two parts add up
   split |-> i # j /\ k # i /\ k # j /\ ((k - i + NPts) % NPts) < ((j - i + NPts) % NPts), full |-> i = j,
   box |-> <<1 + Rnd(18, 9), 1 + Rnd(19, 9), 1 + Rnd(20, 9)>>, ri |-> Rnd(21, 5), H |-> 1 + Rnd(22, 9)]
\* ------------------------------------------------- entities clipped by a box
\* entity plane: through org, spanned by ex and (0, c, s)/h
Tilt == Pick(<< <<1, 0, 1>>, <<1, 0, 1>>, <<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<12, 5, 13>> >>, 30)
IsDisk == Rnd(31, 5) < 2
DR == Pick(<<5, 13, 25, 65>>, 32)
DK == Pick(<< <<1, 1>>, <<1, 2>>, <<3, 5>>, <<1, 1>> >>, 33)
\* polygons: the catalogue; corners within 13 or so
EPoly == MkPoly(1 + Rnd(1, NPoly), Rnd(5, 4), Rnd(6, 2), T0)
Sort2(a, b) == IF RLess(b, a) THEN <<b, a>> ELSE <<a, b>>
PolyRange == LET u == Sort2(RI(Rnd(34, 17) - 8), RI(Rnd(35, 17) - 8)) v == Sort2(RI(Rnd(36, 17) - 8), RI(Rnd(37, 17) - 8)) IN
   CASE Rnd(38, 8) = 0 -> <<RI(-30), RI(30), RI(-30), RI(30)>>
     [] Rnd(38, 8) = 1 -> <<RI(20), RI(25), v[1], RAdd(v[2], RI(1))>>
     [] OTHER -> <<u[1], RAdd(u[2], RI(1)), v[1], RAdd(v[2], RI(1))>>
DiskRange == LET L == Levels(DR) big == RI(DR + 10)
                 lev(k) == RI(SetPick(L, k)) klev(k) == RMul(lev(k), Rat(DK[1], DK[2]))
                 one(a, b, kind, w) == CASE kind = 0 -> <<RNeg(w), w>> [] kind = 1 -> <<RNeg(w), b>> [] kind = 2 -> <<a, w>>
                                    [] kind = 3 -> IF REq(a, b) THEN <<a, w>> ELSE Sort2(a, b) [] kind = 4 -> <<w, RAdd(w, w)>>
                 x == one(lev(34), lev(35), Pick(<<0, 1, 2, 3, 3, 1, 2, 4>>, 38), big)
                 y == one(klev(36), klev(37), Pick(<<0, 1, 2, 3, 3, 1, 2, 0>>, 39), big)
             IN <<x[1], x[2], y[1], y[2]>>
Rect == IF IsDisk THEN DiskRange ELSE PolyRange
EntNodes == IF IsDisk THEN CircleNodes(DR, DK[1], DK[2]) ELSE PolyNodes(EPoly.c)
\* world y = v*c/h, z = v*s/h (+ off along the normal, tilt 0 only)
Off == IF Tilt[2] = 0 THEN Rnd(40, 6) - 2 ELSE 0 \* 0: inside; others: plane beyond a face of the box
Slack == RI(IF IsDisk THEN 2 * DR + 25 ELSE 64)
UseZ(k) == Tilt[2] # 0 /\ Rnd(k, 2) = 1
YB == <<IF UseZ(41) THEN RNeg(Slack) ELSE RMul(Rect[3], Rat(Tilt[1], Tilt[3])), IF UseZ(42) THEN Slack ELSE RMul(Rect[4], Rat(Tilt[1], Tilt[3]))>>
ZB == IF Tilt[2] = 0 THEN CASE Off = 0 -> <<RI(-3), RI(2)>> [] Off = 1 -> <<RI(1), RI(4)>> [] Off = -1 -> <<RI(-6), RI(-2)>> [] Off = 3 -> <<RI(0), RI(2)>> [] OTHER -> <<RI(-1), Rat(1, 2)>>
      ELSE <<IF UseZ(41) THEN RMul(Rect[3], Rat(Tilt[2], Tilt[3])) ELSE RNeg(Slack), IF UseZ(42) THEN RMul(Rect[4], Rat(Tilt[2], Tilt[3])) ELSE Slack>>
InPlane == Off \notin {1, -1}
Rest == IF InPlane THEN ClipRect(EntNodes, Rect) ELSE <<>>
\* segments of the same plane, and the arcs of the rim of disks
SegAB == << <<Rnd(43, 25) - 12, Rnd(44, 25) - 12>>, <<Rnd(45, 25) - 12, Rnd(46, 25) - 12>> >>
SegF(a, b, r) == { <<RSub(RI(a[1]), r[2]), RSub(RI(b[1]), r[2])>>, <<RSub(r[1], RI(a[1])), RSub(r[1], RI(b[1]))>>,
                   <<RSub(RI(a[2]), r[4]), RSub(RI(b[2]), r[4])>>, <<RSub(r[3], RI(a[2])), RSub(r[3], RI(b[2]))>> }
SegPart(r) == LET a == SegAB[1] b == SegAB[2] IN SegClip(SegF(a, b, r))
RimIn(r) == \* nodes whose following arc lies in the rectangle
   LET N == EntNodes in(p) == RLeq(r[1], p[1]) /\ RLeq(p[1], r[2]) /\ RLeq(r[3], p[2]) /\ RLeq(p[2], r[4]) IN
   [i \in 1..Len(N) |-> in(N[i].p) /\ in(N[NxtN(N, i)].p)]
\* a band cut out of the box: the entity can be left with several parts
BandX == LET a == Rnd(47, 7) - 4 IN <<RI(a), RI(a + 1 + Rnd(48, 3))>>
HasBand == ~IsDisk /\ InPlane /\ RLess(Rect[1], BandX[1]) /\ RLess(BandX[2], Rect[2])
Band == <<BandX[1], BandX[2], Rect[3], Rect[4]>>
InSide == SegAB[1][1] = SegAB[2][1] /\ (REq(RI(SegAB[1][1]), BandX[1]) \/ REq(RI(SegAB[1][1]), BandX[2]))
BoxCase ==
  [band |-> IF HasBand THEN BandX ELSE <<>>, cut |-> IF HasBand THEN ClipRect(EntNodes, Band) ELSE <<>>,
   \* (a segment in a side of the band is a part of the closed remainder)
   cutseg |-> IF HasBand /\ SegAB[1] # SegAB[2] /\ ~InSide THEN SegPart(Band) ELSE <<>>,
   ent |-> IF IsDisk THEN [kind |-> "disk", m |-> <<0, 0>>, u |-> <<DR, 0>>, k |-> DK] ELSE EPoly,
   tilt |-> Tilt, dom |-> "box", box |-> << <<Rect[1], Rect[2]>>, YB, ZB >>, rest |-> Rest, whole |-> Rest = EntNodes,
   seg |-> SegAB, part |-> IF InPlane /\ SegAB[1] # SegAB[2] THEN SegPart(Rect) ELSE <<>>, 
   pts |-> IF IsDisk THEN CirclePts(DR) ELSE <<>>, rim |-> IF IsDisk THEN (IF InPlane THEN RimIn(Rect) ELSE [i \in 1..Len(EntNodes) |-> FALSE]) ELSE <<>>]
\* --------------------------------------- entities clipped by a cylinder/sphere
\* kind 0: perpendicular plane in the cylinder, 1: plane parallel to the axis at distance d, 2: perpendicular, beyond the caps
CR == Pick(<<5, 13, 25, 65>>, 50)
CH == Pick(<<3, 10, 40>>, 51)
CKind == Pick(<<0, 1, 0, 1, 1, 2>>, 52)
PyN == CHOOSE q \in 1..Len(CirclePts(CR)) : q = 1 + Rnd(53, Len(CirclePts(CR)))
CD == CirclePts(CR)[PyN][1]  CW == Abs(CirclePts(CR)[PyN][2])
RLev(k) == SetPick(Levels(CR), k)
\* rectangle entity with sides through circle nodes (perpendicular case); degenerate ones are widened
PRect == LET x == Sort2(RI(RLev(54)), RI(RLev(55))) y == Sort2(RI(RLev(56)), RI(RLev(57)))
             w(s) == IF REq(s[1], s[2]) THEN <<s[1], RI(CR + 3)>> ELSE s
             X == w(x) Y == w(y)
             G(s, k) == CASE Rnd(k, 4) = 0 -> <<RI(-CR - 2), s[2]>> [] Rnd(k, 4) = 1 -> <<s[1], RI(CR + 4)>> [] OTHER -> s
             X2 == G(X, 58) Y2 == G(Y, 59)
             fix(s) == IF RLess(s[1], s[2]) THEN s ELSE <<RI(-CR - 2), RI(CR + 4)>>
         IN <<fix(X2)[1], fix(X2)[2], fix(Y2)[1], fix(Y2)[2]>>
RectPoly(r) == Poly(<< <<r[1][1], r[3][1]>>, <<r[2][1], r[3][1]>>, <<r[2][1], r[4][1]>>, <<r[1][1], r[4][1]>> >>)
\* inscribed polygons: corners on the circle (entirely inside)
NodeIdx == {1 + ((Rnd(60, 36) + d) % Len(CirclePts(CR))) : d \in {0, 1 + Rnd(61, 3), 5 + Rnd(62, 2), 8 + Rnd(63, 3)}}
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})
Inscribed == LET q == SortSet(NodeIdx) IN Poly([i \in 1..Len(q) |-> CirclePts(CR)[q[i]]])
PerpKind == Rnd(64, 5) \* 0..2 rectangle, 3 inscribed, 4 concentric disk
ConR == Pick(<<1, 2, 4, 8>>, 65) \* concentric disk: ConR/4 of the radius
AxRect == <<RI(-CW), RI(CW), RI(0), RI(CH)>> \* section in the plane parallel to the axis
AxPoly == MkPoly(1 + Rnd(1, NPoly), Rnd(5, 4), Rnd(6, 2), T0)
CylCase ==
  LET perp == CKind # 1
      ent == IF ~perp THEN AxPoly ELSE CASE PerpKind < 3 -> RectPoly(PRect) [] PerpKind = 3 -> Inscribed
                  [] OTHER -> [kind |-> "disk", m |-> <<0, 0>>, u |-> <<CR, 0>>, k |-> <<1, 1>>, f |-> ConR]
      rest == CASE CKind = 2 -> <<>>
                [] CKind = 1 -> IF CW = 0 THEN <<>> ELSE ClipRect(PolyNodes(AxPoly.c), AxRect)
                [] OTHER -> CASE PerpKind < 3 -> ClipRect(CircleNodes(CR, 1, 1), PRect) [] PerpKind = 3 -> PolyNodes(Inscribed.c) [] OTHER -> CircleNodes(CR, 1, 1)
      part == CASE CKind = 1 /\ CW > 0 /\ SegAB[1] # SegAB[2] -> SegPart(AxRect) [] OTHER -> <<>>
  IN [ent |-> ent, dom |-> "cyl", kind |-> CKind, R |-> CR, H |-> CH, d |-> CD, w |-> CW, rest |-> rest,
      z |-> Pick(<< <<1, 2>>, <<1, 4>>, <<2, 3>> >>, 66), beyond |-> Rnd(67, 2), perp |-> PerpKind, seg |-> SegAB, part |-> part,
      skipSeg |-> CKind # 1 \/ CW = 0 \/ SegAB[1] = SegAB[2]]
\* sphere: plane at distance d from the centre, section circle of radius w; quarter, half, all, none
SphCase == LET q == Rnd(70, 5) w == CW
               r == CASE q = 0 -> <<RI(-w - 3), RI(w + 5), RI(-w - 4), RI(w + 2)>> [] q = 1 -> <<RI(0), RI(w + 2), RI(-w - 1), RI(w + 1)>>
                      [] q = 2 -> <<RI(0), RI(w + 2), RI(0), RI(w + 1)>> [] q = 3 -> <<RI(w + 1), RI(w + 4), RI(0), RI(w + 4)>> [] OTHER -> <<RI(-w - 3), RI(0), RI(-w - 4), RI(0)>>
           IN [ent |-> RectPoly(r), dom |-> "sphere", R |-> CR, d |-> CD, w |-> w, rest |-> IF w = 0 THEN <<>> ELSE ClipRect(CircleNodes(w, 1, 1), r),
               h |-> CirclePts(CR)[PyN]]
Init == seed \in Lo..(Lo + 63)
Next == seed + 64 <= Hi /\ seed' = seed + 64
\* meta: clipping twice changes nothing; clipping with complementary half planes conserves the area
Meta == CASE Mode = "box" /\ ~IsDisk -> LET N == EntNodes IN
                 /\ Shoe2(ClipRect(ClipRect(N, Rect), Rect)) = Shoe2(ClipRect(N, Rect))
                 /\ HasBand => REq(Shoe2(Rest), RAdd(Shoe2(ClipRect(N, Band)), RAdd(Shoe2(ClipRect(N, <<Rect[1], BandX[1], Rect[3], Rect[4]>>)),
                                                                                     Shoe2(ClipRect(N, <<BandX[2], Rect[2], Rect[3], Rect[4]>>)))))
                 /\ REq(RAdd(Shoe2(Clip(N, HX(1, Rect[1]))), Shoe2(Clip(N, HX(-1, RNeg(Rect[1]))))), Shoe2(N))
          [] Mode = "box" -> LET N == ClipRect(EntNodes, Rect) IN ClipRect(N, Rect) = N
          [] OTHER -> TRUE
Emit == PrintT(ToJson(CASE Mode = "plain" -> PlainCase [] Mode = "box" -> BoxCase [] Mode = "cyl" -> CylCase [] Mode = "sphere" -> SphCase))
=============================================================================
