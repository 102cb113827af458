----------------------------- MODULE GiantPairs -----------------------------
(* P06: pairs as in PlanarPairs, but of very different extent: a shape of     *)
(* lattice size, far from the centre of a shape that is one to two orders of  *)
(* magnitude larger (the characteristic length of a pair is that of the       *)
(* larger shape).                                                             *)
EXTENDS PlanarPairs
Giants == <<
  << <<-100,-100>>, <<100,-100>>, <<100,100>>, <<-100,100>> >>,
  << <<-100,-3>>, <<100,-3>>, <<100,5>>, <<-100,5>> >>,
  << <<-100,-50>>, <<100,-30>>, <<90,40>>, <<-80,50>> >>,
  << <<-100,0>>, <<100,0>>, <<50,90>>, <<-50,90>> >>,
  << <<-100,0>>, <<0,-40>>, <<100,0>>, <<0,40>> >>,
  << <<-100,-20>>, <<100,-20>>, <<0,90>> >>,
  << <<-100,0>>, <<-60,-60>>, <<60,-60>>, <<100,0>>, <<60,60>>, <<-60,60>> >> >>
GiantDisks == << <<100,0,1,1>>, <<60,80,1,1>>, <<0,100,1,1>>, <<100,0,1,2>>, <<80,-60,1,1>> >>
Mirror(q, f) == IF f = 0 THEN q ELSE Rev([i \in 1..Len(q) |-> <<-q[i][1], q[i][2]>>])
BigPoly == Poly(Mirror(PickSeq(Giants, R(seed, 50, 1000)), R(seed, 51, 2)))
BigDisk == LET d == PickSeq(GiantDisks, R(seed, 52, 1000)) IN Disk(0, 0, d[1], d[2], d[3], d[4])
Big == IF R(seed, 53, 3) = 0 THEN BigDisk ELSE BigPoly
Off == LET m == IF R(seed, 54, 4) = 0 THEN 101 - R(seed, 55, 8) ELSE 30 + R(seed, 55, 60) IN
       <<IF R(seed, 56, 2) = 0 THEN m ELSE -m, R(seed, 57, 9) - 4>>
Small == IF R(seed, 58, 20) < 14 THEN MkPoly(1 + R(seed, 59, NPoly), R(seed, 60, 4), R(seed, 61, 2), Off)
         ELSE MkDisk(1 + R(seed, 62, NDisk), Off)
\* the numbers of the model checker are limited: pairs that exceed them are not emitted
Lim(x, y) == /\ Abs(x.p) < 2000000 \div y.d /\ Abs(y.p) < 2000000 \div x.d
             /\ IF IsRat(x) /\ IsRat(y) THEN TRUE
                ELSE /\ Abs(x.p) * y.d + Abs(y.p) * x.d < 46000
                     /\ x.q < 2000000000 \div (y.d * y.d) /\ y.q < 2000000000 \div (x.d * x.d)
Fits(i, j) == i.n = 0 \/ j.n = 0 \/ (Lim(i.lo, j.lo) /\ Lim(i.lo, j.hi) /\ Lim(i.hi, j.lo) /\ Lim(i.hi, j.hi))
GAgrees(S, I) == \A h \in -220..220 :
   LET w == Where(S, h, 0, 2) IN
   IF I.n = 0 THEN w = -1
   ELSE LET l == QSgnMinus(I.lo, <<h, 2>>) u == QSgnMinus(I.hi, <<h, 2>>) IN (w >= 0) <=> (l <= 0 /\ u >= 0)
GMeta == LET b == Big ib == OnAxis(b) IN CatalogConvex(b, b) /\ (seed % 16 = 0 /\ b.kind = "poly" => GAgrees(b, ib))
GEmit == LET a == Small b == Big ia == OnAxis(a) ib == OnAxis(b) IN
         (Fits(ia, ib) /\ Comparable(ia, ib) => PrintT(ToJson(CaseOf(a, b, ia, ib))))
=============================================================================
