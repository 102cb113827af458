------------------------------ MODULE ArcPoly ------------------------------
(* Closed planar regions bounded by straight edges and circular arcs, as cyclic *)
(* sequences (counterclockwise) of nodes [p, arc]: p a rational point, arc: the *)
(* edge to the next node follows the circle (about the origin of the region).   *)
(* Circles carry all their Pythagorean points as nodes, so that cuts along      *)
(* lines through nodes never split an arc and everything stays rational.        *)
EXTENDS Shapes2D
RI(n) == <<n, 1>>
Octant(r) == CASE r = 5 -> << <<5, 0>>, <<4, 3>>, <<3, 4>> >>
               [] r = 13 -> << <<13, 0>>, <<12, 5>>, <<5, 12>> >>
               [] r = 25 -> << <<25, 0>>, <<24, 7>>, <<20, 15>>, <<15, 20>>, <<7, 24>> >>
               [] r = 65 -> << <<65, 0>>, <<63, 16>>, <<60, 25>>, <<56, 33>>, <<52, 39>>, <<39, 52>>, <<33, 56>>, <<25, 60>>, <<16, 63>> >>
               [] OTHER -> << <<r, 0>> >>
\* the known points of the circle of radius r about the origin, counterclockwise from <<r, 0>>
CirclePts(r) == LET q == Octant(r) n == Len(q) IN [i \in 1..(4 * n) |-> Rot(q[1 + ((i - 1) % n)], (i - 1) \div n)]
Levels(r) == {CirclePts(r)[i][1] : i \in 1..Len(CirclePts(r))}
\* ellipse with half axes r and r*kn/kd: the circle stretched in y
CircleNodes(r, kn, kd) == LET q == CirclePts(r) IN [i \in 1..Len(q) |-> [p |-> <<RI(q[i][1]), Rat(q[i][2] * kn, kd)>>, arc |-> TRUE]]
PolyNodes(c) == [i \in 1..Len(c) |-> [p |-> <<RI(c[i][1]), RI(c[i][2])>>, arc |-> FALSE]]
RScale(r, k) == RMul(r, RI(k))
\* half plane a*x + b*y <= c (a, b integers, c rational)
HVal(h, p) == RSub(RAdd(RScale(p[1], h.a), RScale(p[2], h.b)), h.c)
RSgn(r) == Sgn(r[1])
NxtN(N, i) == IF i = Len(N) THEN 1 ELSE i + 1
CrossAt(P, Q, fp, fq) == \* the point where the segment PQ meets the line, fp and fq of opposite sign
   LET t == Rat(fp[1] * fq[2], fp[1] * fq[2] - fq[1] * fp[2]) IN [i \in {1, 2} |-> RAdd(P[i], RMul(t, RSub(Q[i], P[i])))]
RECURSIVE ClipFrom(_, _, _)
ClipFrom(N, h, i) ==
  IF i > Len(N) THEN <<>> ELSE
  LET P == N[i] Q == N[NxtN(N, i)]
      fp == HVal(h, P.p) fq == HVal(h, Q.p)
      sp == RSgn(fp) sq == RSgn(fq)
      out == CASE sp <= 0 /\ sq <= 0 -> <<P>>
               [] sp = 0 /\ sq > 0 -> << [p |-> P.p, arc |-> FALSE] >>
               [] sp < 0 /\ sq > 0 -> IF Assert(~P.arc, "arc crossed") THEN <<P, [p |-> CrossAt(P.p, Q.p, fp, fq), arc |-> FALSE]>> ELSE <<>>
               [] sp > 0 /\ sq < 0 -> IF Assert(~P.arc, "arc crossed") THEN << [p |-> CrossAt(P.p, Q.p, fp, fq), arc |-> FALSE] >> ELSE <<>>
               [] OTHER -> <<>>
  IN out \o ClipFrom(N, h, i + 1)
Clip(N, h) == ClipFrom(N, h, 1)
HX(s, c) == [a |-> s, b |-> 0, c |-> c]
HY(s, c) == [a |-> 0, b |-> s, c |-> c]
RNeg(r) == <<-r[1], r[2]>>
\* rectangle [x0, x1] x [y0, y1] of rationals
ClipRect(N, r) == Clip(Clip(Clip(Clip(N, HX(1, r[2])), HX(-1, RNeg(r[1]))), HY(1, r[4])), HY(-1, RNeg(r[3])))
\* half planes of a convex polygon with integer corners in counterclockwise order
SideH(c, i) == LET a == c[i] b == c[IF i = Len(c) THEN 1 ELSE i + 1] IN [a |-> b[2] - a[2], b |-> a[1] - b[1], c |-> RI((b[2] - a[2]) * a[1] + (a[1] - b[1]) * a[2])]
RECURSIVE ClipPolyFrom(_, _, _)
ClipPolyFrom(N, c, i) == IF i > Len(c) THEN N ELSE ClipPolyFrom(Clip(N, SideH(c, i)), c, i + 1)
ClipPoly(N, c) == ClipPolyFrom(N, c, 1)
\* twice the shoelace sum of a node sequence (only for polygons with small coordinates)
RECURSIVE Shoe2From(_, _)
Shoe2From(N, i) == IF i > Len(N) THEN RI(0) ELSE LET P == N[i].p Q == N[NxtN(N, i)].p IN
   RAdd(RSub(RMul(P[1], Q[2]), RMul(P[2], Q[1])), Shoe2From(N, i + 1))
Shoe2(N) == Shoe2From(N, 1)
\* part [t0, t1] of the segment from a to b (integer points) with f(t) <= 0 for all affine f = <<f(a), f(b)>>
SegClip(F) == \* F: set of pairs of rationals <<f(0), f(1)>>, keep f <= 0; result <<>> or <<t0, t1>>
   LET lo == {RI(0)} \cup {Rat(f[1][1] * f[2][2], f[1][1] * f[2][2] - f[2][1] * f[1][2]) : f \in {g \in F : RSgn(g[1]) > 0 /\ RSgn(g[2]) < 0}}
       hi == {RI(1)} \cup {Rat(f[1][1] * f[2][2], f[1][1] * f[2][2] - f[2][1] * f[1][2]) : f \in {g \in F : RSgn(g[1]) < 0 /\ RSgn(g[2]) > 0}}
       t0 == IF \E f \in F : RSgn(f[1]) > 0 /\ RSgn(f[2]) = 0 THEN RI(1) ELSE RSetMax(lo)
       t1 == IF \E f \in F : RSgn(f[2]) > 0 /\ RSgn(f[1]) = 0 THEN RI(0) ELSE RSetMin(hi)
   IN IF (\E f \in F : RSgn(f[1]) > 0 /\ RSgn(f[2]) > 0) \/ RLess(t1, t0) THEN <<>> ELSE <<t0, t1>>
=============================================================================
