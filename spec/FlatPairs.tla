----------------------------- MODULE FlatPairs -----------------------------
(* P08.  Two planar shapes in one plane: convex lattice polygons, whose common *)
(* part is given by its exact corners, or circular disks.                     *)
EXTENDS Shapes2D, FiniteSets, Json
CONSTANTS Lo, Hi, Mode
VARIABLES seed
Rnd(k, n) == R(seed, k, n)
Shift(k) == <<Rnd(k, 13) - 6, Rnd(k + 1, 11) - 5>>
Grid(k) == LET a == Rnd(k, 8) - 4 b == Rnd(k + 1, 8) - 4 w == 1 + Rnd(k + 2, 5) h == 1 + Rnd(k + 3, 5) IN
           Poly(<< <<a, b>>, <<a + w, b>>, <<a + w, b + h>>, <<a, b + h>> >>)
Shape(k) == IF Rnd(k, 3) = 0 THEN Grid(k + 4) ELSE MkPoly(1 + Rnd(k + 1, NPoly), Rnd(k + 2, 4), Rnd(k + 3, 2), Shift(k + 4))
\* the second shape: random, or moved such that it touches the first in a corner
Touching(A, k) == LET S == Shape(k) i == 1 + Rnd(k + 8, NC(A)) j == 1 + Rnd(k + 9, NC(S)) IN
                  Poly([n \in 1..NC(S) |-> <<S.c[n][1] + A.c[i][1] - S.c[j][1], S.c[n][2] + A.c[i][2] - S.c[j][2]>>])
Second(A) == IF Rnd(50, 3) = 0 THEN Touching(A, 60) ELSE IF Rnd(50, 30) = 29 THEN A ELSE Shape(60)
\* normalised rational points
Pt(x, y, d) == LET s == Sgn(d) g == Gcd(Gcd(Abs(x), Abs(y)), Abs(d)) IN <<s * (x \div g), s * (y \div g), s * (d \div g)>>
CornersIn(P, Q) == {Pt(P.c[i][1], P.c[i][2], 1) : i \in {i \in 1..NC(P) : PolyWhere(Q, P.c[i][1], P.c[i][2], 1) >= 0}}
Crossing(a, b, p, q) == \* crossing of the interiors of two segments
  LET s1 == Cross2(a, b, p) s2 == Cross2(a, b, q) t1 == Cross2(p, q, a) t2 == Cross2(p, q, b) IN
  IF Sgn(s1) * Sgn(s2) < 0 /\ Sgn(t1) * Sgn(t2) < 0
  THEN {Pt(p[1] * (s1 - s2) + s1 * (q[1] - p[1]), p[2] * (s1 - s2) + s1 * (q[2] - p[2]), s1 - s2)} ELSE {}
Corners(P, Q) == CornersIn(P, Q) \cup CornersIn(Q, P) \cup UNION {Crossing(P.c[i], P.c[Nxt(P, i)], Q.c[j], Q.c[Nxt(Q, j)]) : i \in 1..NC(P), j \in 1..NC(Q)}
Separates(P, Q) == \E i \in 1..NC(P) : \A j \in 1..NC(Q) : Cross2(P.c[i], P.c[Nxt(P, i)], Q.c[j]) <= 0
KindOf(P, Q, C) == IF C = {} THEN "none" ELSE IF Cardinality(C) = 1 THEN "point" ELSE IF Separates(P, Q) \/ Separates(Q, P) THEN "segment" ELSE "face"
PolyCase == LET P == Shape(10) Q == Second(P) C == Corners(P, Q) IN [mode |-> "poly", A |-> P, B |-> Q, corners |-> C, kind |-> KindOf(P, Q, C)]
PolyMeta == LET r == PolyCase IN
  /\ Convex(r.A) /\ Convex(r.B) /\ Corners(r.B, r.A) = r.corners
  /\ \A c \in r.corners : PolyWhere(r.A, c[1], c[2], c[3]) >= 0 /\ PolyWhere(r.B, c[1], c[2], c[3]) >= 0
  \* lattice points and half points in the interior of both exist only if there is a common face; common points only if there are corners
  /\ \A x \in -16..16, y \in -16..16 : LET a == PolyWhere(r.A, x, y, 2) b == PolyWhere(r.B, x, y, 2) IN
        /\ a > 0 /\ b > 0 => r.kind = "face"
        /\ a >= 0 /\ b >= 0 => r.kind # "none"
  /\ r.kind = "segment" => Cardinality(r.corners) = 2
  /\ r.kind = "face" => Cardinality(r.corners) >= 3
\* circles with radii r1, r2 and centres at the distance d = |<<3k, 4k>>| or on an axis
Offs == << <<0,0>>, <<1,0>>, <<0,2>>, <<3,0>>, <<3,4>>, <<-4,3>>, <<-6,-8>>, <<5,-12>>, <<0,-4>>, <<6,0>> >>
CircCase == LET o == Offs[1 + Rnd(20, Len(Offs))] d == ISqrt(o[1]*o[1] + o[2]*o[2]) a == 1 + Rnd(21, 8)
                b0 == IF Rnd(22, 4) = 0 THEN Abs(d - a) ELSE IF Rnd(22, 4) = 1 THEN d + a ELSE 1 + Rnd(23, 8) b == IF b0 = 0 THEN 1 ELSE b0 IN
            [mode |-> "circ", a |-> a, b |-> b, o |-> o, d |-> d,
             kind |-> IF a + b < d THEN "none" ELSE IF a + b = d THEN "point" ELSE "face",
             rel |-> IF d + a <= b THEN "first" ELSE IF d + b <= a THEN "second" ELSE "lens"]
CircMeta == LET r == CircCase IN r.d * r.d = r.o[1]*r.o[1] + r.o[2]*r.o[2]
Init == seed \in Lo..(Lo + 63)
Next == seed + 64 <= Hi /\ seed' = seed + 64
Meta == IF Mode = "poly" THEN PolyMeta ELSE CircMeta
Emit == PrintT(ToJson(IF Mode = "poly" THEN PolyCase ELSE CircCase))
=============================================================================
