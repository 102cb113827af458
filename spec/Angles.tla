------------------------------- MODULE Angles -------------------------------
(* P09.  Intersection angles.  "dirs": two surfaces through a common point    *)
(* with lattice normals N1, N2 there.  "cyl": a plane with lattice normal N   *)
(* and a cylinder around the z-axis, with contacts at rational positions of   *)
(* the circle of radius 5^k; curved contacts take the smallest angle over the *)
(* quarter points (arcs) or eighth points (ellipses).  The cosine of an angle *)
(* is num/den/sqrt(nn).                                                       *)
EXTENDS Num, Rand, Json, FiniteSets
CONSTANTS Lo, Hi, Mode
VARIABLES seed
Rnd(k, n) == R(seed, k, n)
RV(k, m) == <<Rnd(k, 2*m + 1) - m, Rnd(k + 1, 2*m + 1) - m, Rnd(k + 2, 2*m + 1) - m>>
NZ(v) == IF v = <<0, 0, 0>> THEN <<1, -1, 2>> ELSE v
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
N1 == NZ(RV(1, 6))
N2 == CASE Rnd(4, 10) = 0 -> LET s == 2 * Rnd(5, 2) - 1 IN <<s * N1[1], s * N1[2], s * N1[3]>>
        [] Rnd(4, 10) = 1 -> NZ(<<N1[2], -N1[1], 0>>) \* at right angles
        [] Rnd(4, 10) = 2 -> NZ(<<100 * N1[1] + 1, 100 * N1[2], 100 * N1[3] - 1>>) \* nearly parallel
        [] OTHER -> NZ(RV(6, 6))
DirCase == [n |-> <<N1, N2>>, dot |-> Abs(Dot(N1, N2)), a |-> Dot(N1, N1), b |-> Dot(N2, N2), par |-> Dot(N1, N2) * Sgn(Dot(N1, N2)) > 0 /\
            N1[1]*N2[2] = N1[2]*N2[1] /\ N1[2]*N2[3] = N1[3]*N2[2] /\ N1[1]*N2[3] = N1[3]*N2[1]]
\* Cauchy-Schwarz, with equality exactly for parallel normals
DirMeta == LET d == DirCase IN IF d.a > 20000 \/ d.b > 20000 THEN TRUE ELSE d.dot * d.dot <= d.a * d.b /\ (d.par <=> d.dot * d.dot = d.a * d.b)
\* rational rotations: complex numbers of absolute value 5
CMul(p, q) == <<p[1]*q[1] - p[2]*q[2], p[1]*q[2] + p[2]*q[1]>>
Twelve == << <<5,0>>, <<4,3>>, <<3,4>>, <<0,5>>, <<-3,4>>, <<-4,3>>, <<-5,0>>, <<-4,-3>>, <<-3,-4>>, <<0,-5>>, <<3,-4>>, <<4,-3>> >>
P0 == Twelve[1 + Rnd(10, 12)]
Step == << <<4,3>>, <<3,4>>, <<0,5>> >>[1 + Rnd(11, 3)] \* the quarter of the arc
Q(k) == CASE k = 0 -> <<P0[1] * 625, P0[2] * 625>> [] k = 1 -> LET z == CMul(P0, Step) IN <<z[1] * 125, z[2] * 125>>
          [] k = 2 -> LET z == CMul(CMul(P0, Step), Step) IN <<z[1] * 25, z[2] * 25>>
          [] k = 3 -> LET z == CMul(CMul(CMul(P0, Step), Step), Step) IN <<z[1] * 5, z[2] * 5>>
          [] k = 4 -> CMul(CMul(CMul(CMul(P0, Step), Step), Step), Step)
On(k) == Q(k)[1] * Q(k)[1] + Q(k)[2] * Q(k)[2] = 3125 * 3125
NC == LET v == NZ(RV(20, 4)) IN IF v[3] = 0 THEN <<v[1], v[2], 1>> ELSE v
NPar == LET v == NZ(RV(20, 4)) IN IF v[1] = 0 /\ v[2] = 0 THEN <<1, 0, 0>> ELSE <<v[1], v[2], 0>>
CosAt(n, k) == Abs(n[1] * Q(k)[1] + n[2] * Q(k)[2])
MaxN(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the whole ellipse from its major axis: the steepest direction of the plane and the eighth points: (nx, ny) projected; |n_xy| times max(1, 1/sqrt 2) = |n_xy| at the major axis
CylCase == [n |-> NC, np |-> NPar, q |-> [k \in 1..5 |-> Q(k - 1)], full |-> Step = <<0, 5>>,
            ang |-> [k \in 1..5 |-> CosAt(NC, k - 1)], pang |-> [k \in 1..5 |-> CosAt(NPar, k - 1)],
            arc |-> MaxN({CosAt(NC, k) : k \in 0..4}), nn |-> Dot(NC, NC), npp |-> Dot(NPar, NPar), ell2 |-> NC[1]*NC[1] + NC[2]*NC[2]]
CylMeta == \A k \in 0..4 : On(k) /\ CosAt(NC, k) <= CylCase.arc
Init == seed \in Lo..(Lo + 63)
Next == seed + 64 <= Hi /\ seed' = seed + 64
Meta == IF Mode = "dirs" THEN DirMeta ELSE CylMeta
Emit == PrintT(ToJson(IF Mode = "dirs" THEN DirCase ELSE CylCase))
=============================================================================
