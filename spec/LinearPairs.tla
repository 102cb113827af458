----------------------------- MODULE LinearPairs -----------------------------
(* P06: segments, planes and lines on the integer lattice; refused requests.  *)
EXTENDS Shapes2D, FiniteSets, Json
CONSTANTS Lo, Hi, Mode
VARIABLES seed
V(k, n) == <<R(seed, k, 2*n + 1) - n, R(seed, k + 1, 2*n + 1) - n, R(seed, k + 2, 2*n + 1) - n>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(s, a) == <<s * a[1], s * a[2], s * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Crs(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Zero == <<0, 0, 0>>
NZ(k, n) == LET v == V(k, n) IN IF v = Zero THEN <<1, 0, 0>> ELSE v
\* a point (n/d) as <<x, y, z, d>>
Pnt(p) == <<p[1], p[2], p[3], 1>>
\* ------------------------------------------------ segment - segment
\* first segment a0 + t*u, t in 0..m;  the second one is, by class,
\* collinear, through a lattice point of the first, sharing the plane, or arbitrary
a0 == V(1, 3)
u == NZ(5, 2)
m == 1 + R(seed, 9, 3)
a1 == Add(a0, Mul(m, u))
class == R(seed, 10, 8)
tb == R(seed, 11, 9) - 3
lb == LET x == R(seed, 12, 8) - 4 IN IF x >= 0 THEN x + 1 ELSE x
w == NZ(14, 3)
on == Add(a0, Mul(R(seed, 18, m + 3) - 1, u))
back == R(seed, 19, 3)
fwd == IF back = 0 THEN 1 ELSE R(seed, 20, 3)
b0 == CASE class \in 0..2 -> Add(a0, Mul(tb, u))
        [] class \in 3..5 -> Sub(on, Mul(back, w))
        [] OTHER -> V(24, 4)
b1 == CASE class \in 0..2 -> Add(a0, Mul(tb + lb, u))
        [] class \in 3..5 -> Add(on, Mul(fwd, w))
        [] OTHER -> LET x == V(28, 4) IN IF x = b0 THEN Add(x, <<0, 1, 0>>) ELSE x
SegSeg ==
  LET p == Sub(a1, a0)  q == Sub(b1, b0)  r == Sub(b0, a0)  n == Crs(p, q) IN
  IF n = Zero
  THEN IF Crs(r, p) # Zero THEN [kind |-> "none", lo |-> Pnt(a0), hi |-> Pnt(a0)]
       ELSE \* positions along p, scaled by p.p
            LET pp == Dot(p, p) s0 == Dot(r, p) s1 == Dot(Sub(b1, a0), p)
                lo == Max2(0, Min2(s0, s1)) hi == Min2(pp, Max2(s0, s1))
                P(s) == Append(Add(Mul(pp, a0), Mul(s, p)), pp)
            IN IF lo > hi THEN [kind |-> "none", lo |-> Pnt(a0), hi |-> Pnt(a0)]
               ELSE [kind |-> IF lo = hi THEN "point" ELSE "segment", lo |-> P(lo), hi |-> P(hi)]
  ELSE IF Dot(r, n) # 0 THEN [kind |-> "none", lo |-> Pnt(a0), hi |-> Pnt(a0)]
  ELSE LET nn == Dot(n, n) t == Dot(Crs(r, q), n) s == Dot(Crs(r, p), n)
           P == Append(Add(Mul(nn, a0), Mul(t, p)), nn)
       IN IF t >= 0 /\ t <= nn /\ s >= 0 /\ s <= nn
          THEN [kind |-> "point", lo |-> P, hi |-> P]
          ELSE [kind |-> "none", lo |-> Pnt(a0), hi |-> Pnt(a0)]
\* meta: the reported ends lie on both segments (integer test of a rational point)
OnSeg(x, c, d) == LET e == Sub(d, c) f == <<x[1] - x[4]*c[1], x[2] - x[4]*c[2], x[3] - x[4]*c[3]>> IN
                  /\ Crs(e, f) = Zero /\ Dot(e, f) >= 0 /\ Dot(e, f) <= x[4] * Dot(e, e)
SegOk == LET r == SegSeg IN r.kind # "none" =>
           OnSeg(r.lo, a0, a1) /\ OnSeg(r.lo, b0, b1) /\ OnSeg(r.hi, a0, a1) /\ OnSeg(r.hi, b0, b1)
\* a corner of one segment on the other one implies a non-empty result
CornerOk == (\/ OnSeg(Pnt(a0), b0, b1) \/ OnSeg(Pnt(a1), b0, b1) \/ OnSeg(Pnt(b0), a0, a1) \/ OnSeg(Pnt(b1), a0, a1))
            => SegSeg.kind # "none"
SegCase == LET r == SegSeg IN [a |-> <<a0, a1>>, b |-> <<b0, b1>>, kind |-> r.kind, lo |-> r.lo, hi |-> r.hi]
\* ------------------------------------------------ planes and lines
n1 == NZ(40, 3)
n2 == IF R(seed, 44, 3) = 0 THEN Mul(IF R(seed, 45, 2) = 0 THEN 2 ELSE -1, n1) ELSE NZ(46, 3)
p1 == V(50, 4)
\* a vector inside plane 1
inp == LET e == <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>[1 + R(seed, 54, 3)] c == Crs(n1, e) IN c
p2 == IF R(seed, 55, 2) = 0 THEN Add(p1, inp) ELSE V(56, 4)
lq == IF R(seed, 60, 2) = 0 THEN Sub(p1, inp) ELSE V(61, 4)
ld == IF R(seed, 65, 3) > 0 /\ inp # Zero THEN inp ELSE NZ(66, 3)
PlanePlane == IF Crs(n1, n2) # Zero THEN "line" ELSE IF Dot(n1, Sub(p2, p1)) = 0 THEN "plane" ELSE "none"
Den == Dot(n1, ld)
PlaneLine == IF Den # 0 THEN "point" ELSE IF Dot(n1, Sub(lq, p1)) = 0 THEN "line" ELSE "none"
Hit == IF Den = 0 THEN Pnt(lq)
       ELSE LET t == Dot(n1, Sub(p1, lq)) IN Append(Add(Mul(Den, lq), Mul(t, ld)), Den)
PlaneCase == [n1 |-> n1, n2 |-> n2, p1 |-> p1, p2 |-> p2, q |-> lq, d |-> ld, pp |-> PlanePlane, pl |-> PlaneLine, hit |-> Hit]
HitOk == Den # 0 => Dot(n1, <<Hit[1] - Hit[4]*p1[1], Hit[2] - Hit[4]*p1[2], Hit[3] - Hit[4]*p1[3]>>) = 0
\* ------------------------------------------------ faces in parallel planes (h # 0) or in one plane
Shift(k) == <<R(seed, k, 15) - 7, R(seed, k + 1, 13) - 6>>
Shape(k) == IF R(seed, k, 20) < 11
            THEN MkPoly(1 + R(seed, k + 1, NPoly), R(seed, k + 2, 4), R(seed, k + 5, 2), Shift(k + 3))
            ELSE MkDisk(1 + R(seed, k + 1, NDisk), Shift(k + 3))
SA == Shape(80)
SB == Shape(90)
h == R(seed, 100, 5) - 2
\* do they share interior points?  a lattice point (halves) inside both decides "yes"; a separating axis decides "no"
Share(a, b) == \E x \in -13..13 : \E y \in -13..13 : Where(a, x, y, 1) = 1 /\ Where(b, x, y, 1) = 1
SepDirs == << <<1,0>>, <<0,1>>, <<1,1>>, <<1,-1>>, <<2,1>>, <<1,2>>, <<2,-1>>, <<1,-2>>, <<3,1>>, <<1,3>>, <<3,-1>>, <<1,-3>> >>
MaxAlong(S, d) == IF S.kind = "poly" THEN CHOOSE v \in {d[1]*S.c[i][1] + d[2]*S.c[i][2] : i \in 1..NC(S)} :
                                          \A i \in 1..NC(S) : d[1]*S.c[i][1] + d[2]*S.c[i][2] <= v
                  ELSE \* upper bound of the support function of the ellipse
                       LET a == d[1]*S.u[1] + d[2]*S.u[2] b == d[1]*S.u[2] - d[2]*S.u[1]
                           e == a*a + (b*b*S.k[1]*S.k[1]) \div (S.k[2]*S.k[2]) + 1
                       IN d[1]*S.m[1] + d[2]*S.m[2] + ISqrt(e) + 1
Neg(d) == <<-d[1], -d[2]>>
Apart(a, b) == \E k \in 1..Len(SepDirs) : \E s \in {1, -1} :
               LET d == <<s*SepDirs[k][1], s*SepDirs[k][2]>> IN MaxAlong(a, d) < -MaxAlong(b, Neg(d))
RefuseDo(a, b) == LET s == Share(a, b) d == Apart(a, b) IN
                  /\ ~(s /\ d)
                  /\ (h # 0 \/ s \/ d) => PrintT(ToJson([A |-> a, B |-> b, h |-> h, share |-> s]))
\* ------------------------------------------------ concave polygons (exactly one or more reflex corners)
ConcaveCatalog == << << <<-4,-3>>, <<4,-3>>, <<0,0>>, <<-4,5>> >>, << <<-5,-5>>, <<5,-5>>, <<5,5>>, <<0,-1>>, <<-5,5>> >>,
  << <<0,0>>, <<6,-2>>, <<2,1>>, <<1,7>> >>, << <<-4,-4>>, <<4,-4>>, <<4,0>>, <<0,0>>, <<0,4>>, <<-4,4>> >>,
  << <<-3,0>>, <<-5,-4>>, <<5,-4>>, <<3,0>>, <<5,4>>, <<-5,4>> >>, << <<0,-1>>, <<5,-4>>, <<1,6>>, <<-5,-4>> >> >>
CC == ConcaveCatalog[1 + (seed % Len(ConcaveCatalog))]
ConcaveCase == [A |-> Poly([i \in 1..Len(CC) |-> <<Rot(CC[i], (seed \div Len(ConcaveCatalog)) % 4)[1], Rot(CC[i], (seed \div Len(ConcaveCatalog)) % 4)[2]>>])]
ConcaveOk == ~Convex(Poly(CC))

Init == seed \in Lo..(Lo + 63)
Next == seed + 64 <= Hi /\ seed' = seed + 64
Meta == CASE Mode = "seg" -> SegOk /\ CornerOk [] Mode = "plane" -> HitOk [] Mode = "refuse" -> TRUE [] Mode = "concave" -> ConcaveOk
Emit == CASE Mode = "seg" -> PrintT(ToJson(SegCase))
          [] Mode = "plane" -> PrintT(ToJson(PlaneCase))
          [] Mode = "refuse" -> LET a == SA b == SB IN RefuseDo(a, b)
          [] Mode = "concave" -> PrintT(ToJson(ConcaveCase))
=============================================================================
