----------------------------- MODULE PlanarPairs -----------------------------
(* P06 (and, with other observables, P04, P08, P09).  Two planar shapes whose *)
(* planes meet in the x-axis: shape A lives in the half plane frame spanned   *)
(* by the axis and da, shape B in the one spanned by the axis and db.  Their  *)
(* common point set is an interval of the axis, computed exactly.             *)
EXTENDS Shapes2D, FiniteSets, Json
CONSTANTS Lo, Hi
VARIABLES seed
\* directions of the shapes' y-axes orthogonal to the common line (lattice vectors)
Dirs == << <<1,0>>, <<0,1>>, <<1,1>>, <<3,1>>, <<-1,2>>, <<-1,0>>, <<1,-3>>, <<4,3>>, <<-5,1>>, <<10,1>>, <<-12,5>>, <<2,3>> >>
Shift(k) == <<R(seed, k, 11) - 5, R(seed, k + 1, 9) - 4>>
Shape(k) == LET t == Shift(k + 3) IN
            IF R(seed, k, 20) < 11
            THEN MkPoly(1 + R(seed, k + 1, NPoly), R(seed, k + 2, 4), R(seed, k + 5, 2), t)
            ELSE MkDisk(1 + R(seed, k + 1, NDisk), t)
A == Shape(10)
B == Shape(20)
da == PickSeq(Dirs, R(seed, 30, 1000))
db0 == PickSeq(Dirs, R(seed, 31, 1000))
Par(a, b) == a[1] * b[2] - a[2] * b[1] = 0
\* never parallel: turn the second direction if necessary
db == IF Par(da, db0) THEN <<-db0[2] + db0[1], db0[1] + db0[2]>> ELSE db0
\* a transversal line through an axis point (x0/2): where does it hit A?
x0 == R(seed, 40, 31) - 15
y0 == R(seed, 41, 17) - 8
CaseOf(a, b, ia, ib) ==
  LET is == Common(ia, ib) ea == da eb == db IN
        [A |-> a, B |-> b, da |-> ea, db |-> eb, ia |-> ia, ib |-> ib, is |-> is, kind |-> Kind(is),
         ka |-> Kind(ia), kb |-> Kind(ib),
         dot |-> ea[1] * eb[1] + ea[2] * eb[2],
         na |-> ea[1] * ea[1] + ea[2] * ea[2], nb |-> eb[1] * eb[1] + eb[2] * eb[2],
         pt |-> <<x0, y0>>, pa |-> Where(a, x0, y0, 2), seed |-> seed]
Init == seed \in Lo..(Lo + 63)
Next == seed + 64 <= Hi /\ seed' = seed + 64
\* ---- meta properties of the specification
CatalogConvex(a, b) == (a.kind = "poly" => Convex(a)) /\ (b.kind = "poly" => Convex(b))
\* the interval is exactly the set of axis points inside the shape: probed at half integers
AxisAgrees(S, I) == \A h \in -40..40 :
   LET w == Where(S, h, 0, 2) IN
   IF I.n = 0 THEN w = -1
   ELSE LET l == QSgnMinus(I.lo, <<h, 2>>) u == QSgnMinus(I.hi, <<h, 2>>) IN
        (w >= 0) <=> (l <= 0 /\ u >= 0)
CommonExact(a, b, is) == \A h \in -40..40 :
   (Where(a, h, 0, 2) >= 0 /\ Where(b, h, 0, 2) >= 0) <=>
   (is.n = 1 /\ QSgnMinus(is.lo, <<h, 2>>) <= 0 /\ QSgnMinus(is.hi, <<h, 2>>) >= 0)
Meta == LET a == A b == B ia == OnAxis(a) ib == OnAxis(b) IN
        /\ CatalogConvex(a, b)
        /\ seed % 4 = 0 => AxisAgrees(a, ia) /\ AxisAgrees(b, ib)
        /\ Comparable(ia, ib) => /\ Common(ia, ib) = Common(ib, ia)
                                 /\ seed % 4 = 0 => CommonExact(a, b, Common(ia, ib))
Emit == LET a == A b == B ia == OnAxis(a) ib == OnAxis(b) IN
        Comparable(ia, ib) => PrintT(ToJson(CaseOf(a, b, ia, ib)))
=============================================================================
