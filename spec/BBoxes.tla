------------------------------- MODULE BBoxes -------------------------------
(* P21.  Bounding boxes: exact extents of geometries in rational orthonormal  *)
(* frames (of the form (p -/+ sqrt(q))/k), and the overlap relation of boxes. *)
EXTENDS ArcPoly, Rand, Json, FiniteSets
CONSTANTS Lo, Hi, Mode
VARIABLES seed
Rnd(k, n) == R(seed, k, n)
Pick(s, k) == PickSeq(s, Rnd(k, 30000))
\* rows: images of the local unit vectors, times k
Frames == << [k |-> 1, m |-> << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>],
             [k |-> 5, m |-> << <<3,4,0>>, <<-4,3,0>>, <<0,0,5>> >>],
             [k |-> 3, m |-> << <<1,2,2>>, <<2,1,-2>>, <<-2,2,-1>> >>],
             [k |-> 7, m |-> << <<2,3,6>>, <<3,-6,2>>, <<6,2,-3>> >>],
             [k |-> 9, m |-> << <<1,8,-4>>, <<4,-4,-7>>, <<8,1,4>> >>],
             [k |-> 11, m |-> << <<2,6,9>>, <<9,-6,2>>, <<6,7,-6>> >>],
             [k |-> 15, m |-> << <<2,10,11>>, <<14,-5,2>>, <<5,10,-10>> >>] >>
F == LET f == Pick(Frames, 1) p == Rnd(2, 3) \* cyclic permutation of the rows
     IN [k |-> f.k, m |-> [i \in 1..3 |-> f.m[1 + ((i + p) % 3)]]]
Ortho(f) == \A i, j \in 1..3 : f.m[i][1]*f.m[j][1] + f.m[i][2]*f.m[j][2] + f.m[i][3]*f.m[j][3] = IF i = j THEN f.k * f.k ELSE 0
C == <<Rnd(3, 15) - 7, Rnd(4, 15) - 7, Rnd(5, 15) - 7>>
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Ext(lo, hi, q) == [lo |-> lo, hi |-> hi, q |-> q]
\* extents times k
PolyExt(c) == [i \in 1..3 |-> LET S == {F.k * C[i] + c[j][1] * F.m[1][i] + c[j][2] * F.m[2][i] : j \in 1..Len(c)} IN Ext(SetMin(S), SetMax(S), 0)]
EllExt(a, b) == [i \in 1..3 |-> Ext(F.k * C[i], F.k * C[i], a*a*F.m[1][i]*F.m[1][i] + b*b*F.m[2][i]*F.m[2][i])]
CylExt(r, h) == [i \in 1..3 |-> Ext(F.k * C[i] + Min2(0, h * F.m[3][i]), F.k * C[i] + Max2(0, h * F.m[3][i]), r*r*(F.k*F.k - F.m[3][i]*F.m[3][i]))]
SphExt(r) == [i \in 1..3 |-> Ext(F.k * (C[i] - r), F.k * (C[i] + r), 0)]
\* arcs in axis-aligned planes: the extreme points of the ellipse are nodes
AR == Pick(<<5, 13, 25, 65>>, 10)
AN == CirclePts(AR)
AK == Pick(<< <<1, 1>>, <<1, 2>>, <<3, 4>> >>, 11)
AI == 1 + Rnd(12, Len(AN))
AJ == LET j == 1 + Rnd(13, Len(AN)) IN IF j = AI THEN 1 + (j % Len(AN)) ELSE j
OnA(q) == ((q - AI + Len(AN)) % Len(AN)) <= ((AJ - AI + Len(AN)) % Len(AN))
APt(q) == <<AN[q][1] * AK[2], AN[q][2] * AK[1]>>
ArcExt == LET Q == {q \in 1..Len(AN) : OnA(q)} X == {APt(q)[1] : q \in Q} Y == {APt(q)[2] : q \in Q} IN
          << Ext(SetMin(X), SetMax(X), 0), Ext(SetMin(Y), SetMax(Y), 0), Ext(0, 0, 0) >>
P2 == MkPoly(1 + Rnd(20, NPoly), Rnd(21, 4), Rnd(22, 2), <<Rnd(23, 9) - 4, Rnd(24, 9) - 4>>)
Seg2 == Poly(<< <<Rnd(25, 19) - 9, Rnd(26, 19) - 9>>, <<Rnd(27, 19) + 10, Rnd(28, 19) - 9>> >>)
EA == 1 + Rnd(29, 12)
EB == 1 + Rnd(30, EA)
CR == 1 + Rnd(31, 9)
CH == 1 + Rnd(32, 12)
ShapeCase == [frame |-> F, c |-> C,
  poly |-> [s |-> P2, e |-> PolyExt(P2.c)], seg |-> [s |-> Seg2, e |-> PolyExt(Seg2.c)],
  tri |-> PolyExt(<<P2.c[1], P2.c[2], P2.c[3]>>),
  ell |-> [a |-> EA, b |-> EB, e |-> EllExt(EA, EB)], circ |-> EllExt(EA, EA),
  cyl |-> [r |-> CR, h |-> CH, e |-> CylExt(CR, CH)], sph |-> [r |-> CR, e |-> SphExt(CR)],
  arc |-> [r |-> AR, k |-> AK, a |-> APt(AI), b |-> APt(AJ), e |-> ArcExt]]
\* all points of the ellipse at known angles lie within the extents: k^2 q - x^2 is a square
EllOk == \A i \in 1..3 : \A j \in 1..36 : LET q == CirclePts(65)[j] x == EA * F.m[1][i] * q[1] + EB * F.m[2][i] * q[2] y == EA * F.m[1][i] * q[2] - EB * F.m[2][i] * q[1] IN
   (EA * EA * F.m[1][i] * F.m[1][i] + EB * EB * F.m[2][i] * F.m[2][i]) * 4225 = x * x + y * y
\* ------------------------------------------------------------ pairs of boxes
\* per axis: all ordered intervals on 0..3, one pair of intervals exhaustively per case, the two others drawn
Ivs == << <<0,0>>, <<0,1>>, <<0,2>>, <<0,3>>, <<1,1>>, <<1,2>>, <<1,3>>, <<2,2>>, <<2,3>>, <<3,3>> >>
Iv(k) == Ivs[1 + Rnd(k, 10)]
Ax == Rnd(40, 3)
Pairs(a) == IF a = Ax THEN {<<Ivs[i], Ivs[j]>> : i \in 1..10, j \in 1..10} ELSE {<<Iv(41 + a), IF Rnd(47, 3) > 0 THEN <<0, 3>> ELSE Iv(44 + a)>>}
Gap(p) == Max2(p[2][1] - p[1][2], p[1][1] - p[2][2]) \* > 0: separated, 0: touching
\* a touching pair is also probed with a gap below (lev 1) and above (lev 2) the tolerance
PairSet == {r \in {[x |-> x, y |-> y, z |-> z, lev |-> l] : x \in Pairs(0), y \in Pairs(1), z \in Pairs(2), l \in 0..2} :
              r.lev = 0 \/ \E a \in 1..3 : Gap(<<r.x, r.y, r.z>>[a]) = 0}
PairOut == [pairs |-> {LET g == <<Gap(r.x), Gap(r.y), Gap(r.z)>> IN
              [x |-> r.x, y |-> r.y, z |-> r.z, lev |-> r.lev, ax |-> IF r.lev = 0 THEN 0 ELSE CHOOSE a \in 1..3 : g[a] = 0,
               over |-> \A a \in 1..3 : g[a] < 0 \/ (g[a] = 0 /\ ~(r.lev = 2 /\ a = CHOOSE b \in 1..3 : g[b] = 0))] : r \in PairSet}]
\* the overlap relation is symmetric, and equivalent to a common point of the half-integer grid
Meets(p) == Gap(p) <= 0
PairMeta == \A i, j \in 1..10 : /\ Meets(<<Ivs[i], Ivs[j]>>) = Meets(<<Ivs[j], Ivs[i]>>)
                                /\ Meets(<<Ivs[i], Ivs[j]>>) = (\E h \in 0..3 : h >= Ivs[i][1] /\ h <= Ivs[i][2] /\ h >= Ivs[j][1] /\ h <= Ivs[j][2])
Init == seed \in Lo..(Lo + 63)
Next == seed + 64 <= Hi /\ seed' = seed + 64
Meta == IF Mode = "pair" THEN PairMeta ELSE Ortho(F) /\ EllOk
Emit == PrintT(ToJson(IF Mode = "pair" THEN PairOut ELSE ShapeCase))
=============================================================================
