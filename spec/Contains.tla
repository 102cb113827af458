------------------------------ MODULE Contains ------------------------------
(* P13.  Point containment: closed point sets of geometries on the lattice    *)
(* and probe points with their exact position relative to them.  A probe is   *)
(*   [p, d, n, in, lev]: the point p/d (local coordinates); n an outward      *)
(*   normal at a boundary point (or zero); lev = 0 probes the point itself,   *)
(*   lev # 0 the point moved by a fraction (lev 1) or a multiple (lev 2) of   *)
(*   the tolerance along n; in: is it contained?                              *)
EXTENDS Shapes2D, FiniteSets, Json
CONSTANTS Lo, Hi, Mode
VARIABLES seed
Rnd(k, n) == R(seed, k, n)
Pr(p, d, in) == [p |-> p, d |-> d, n |-> <<0, 0, 0>>, lev |-> 0, in |-> in]
\* a boundary point with outward normal: itself, slightly outside, clearly outside
Rim(p, d, n) == {[p |-> p, d |-> d, n |-> n, lev |-> l, in |-> l < 2] : l \in 0..2}
Z3(p) == <<p[1], p[2], 0>>
\* Pythagorean positions on the unit circle: <<c, s>>/65, counterclockwise, starting at angle 0
Q1 == << <<65, 0>>, <<63, 16>>, <<60, 25>>, <<56, 33>>, <<52, 39>>, <<39, 52>>, <<33, 56>>, <<25, 60>>, <<16, 63>> >>
Pos == [i \in 1..36 |-> LET q == Q1[1 + ((i - 1) % 9)] IN Rot(q, (i - 1) \div 9)]
PosOk == \A i \in 1..36 : /\ Pos[i][1]^2 + Pos[i][2]^2 = 65^2
                          /\ LET j == IF i = 36 THEN 1 ELSE i + 1 IN Pos[i][1] * Pos[j][2] - Pos[i][2] * Pos[j][1] > 0
\* ---------------------------------------------------------------- planar
Concave4 == << << <<-4,-3>>, <<4,-3>>, <<0,0>>, <<-4,5>> >>, << <<0,-1>>, <<5,-4>>, <<0,6>>, <<-5,-4>> >>,
               << <<-6,0>>, <<0,-1>>, <<7,-5>>, <<1,4>> >>, << <<0,0>>, <<8,1>>, <<3,2>>, <<2,7>> >> >>
Flat4 == << << <<-4,-2>>, <<0,-2>>, <<4,-2>>, <<0,3>> >> >>
\* a concave quadrilateral is the union of the two triangles meeting at its reflex corner (corner 3 of each entry)
ReflexAt(c) == CHOOSE i \in 1..4 : LET q == Poly(c) IN
   Cross2(c[IF i = 1 THEN 4 ELSE i - 1], c[i], c[Nxt(q, i)]) <= 0
TwoTri(c) == LET i == ReflexAt(c) at(k) == c[1 + ((i - 1 + k) % 4)] IN <<Poly(<<at(0), at(1), at(2)>>), Poly(<<at(0), at(2), at(3)>>)>>
QWhere(c, x, y, d) == LET t == TwoTri(c) IN
   IF PolyWhere(t[1], x, y, d) >= 0 \/ PolyWhere(t[2], x, y, d) >= 0 THEN 1 ELSE -1
t0 == <<Rnd(3, 9) - 4, Rnd(4, 9) - 4>>
PShape == LET k == Rnd(1, 12) IN
   CASE k < 5 -> MkPoly(1 + Rnd(2, NPoly), Rnd(5, 4), Rnd(6, 2), t0)
     [] k < 9 -> MkDisk(1 + Rnd(2, NDisk), t0)
     [] OTHER -> LET c == IF k = 9 THEN Flat4[1] ELSE Concave4[1 + Rnd(2, Len(Concave4))] IN
                 Poly([i \in 1..4 |-> LET p == Rot(c[i], Rnd(5, 4)) IN <<p[1] + t0[1], p[2] + t0[2]>>])
IsQuadSplit(S) == S.kind = "poly" /\ ~Convex(S)
Inside(S, x, y, d) == IF IsQuadSplit(S) THEN QWhere(S.c, x, y, d) >= 0 ELSE Where(S, x, y, d) >= 0
\* outward normal of an edge (corners in counterclockwise order)
EdgeRim(S) == UNION {LET a == S.c[i] b == S.c[Nxt(S, i)] n == <<b[2] - a[2], a[1] - b[1], 0>> IN
                     Rim(<<a[1] + b[1], a[2] + b[2], 0>>, 2, n) \cup Rim(<<3*a[1] + b[1], 3*a[2] + b[2], 0>>, 4, n)
                     : i \in 1..NC(S)}
CornerPr(S) == {Pr(Z3(S.c[i]), 1, TRUE) : i \in 1..NC(S)}
DiskPt(S, i) == \* centre + c*u + s*k*perp(u)
   LET c == Pos[i][1] s == Pos[i][2] kd == S.k[2] kn == S.k[1] D == 65 * kd IN
   <<S.m[1] * D + c * kd * S.u[1] - s * kn * S.u[2], S.m[2] * D + c * kd * S.u[2] + s * kn * S.u[1], D>>
DiskNormal(S, i) == \* gradient of the ellipse equation at that point: c*kn*u + s*kd*perp(u)
   LET c == Pos[i][1] s == Pos[i][2] IN <<c * S.k[1] * S.u[1] - s * S.k[2] * S.u[2], c * S.k[1] * S.u[2] + s * S.k[2] * S.u[1], 0>>
DiskRim(S, K) == UNION {LET p == DiskPt(S, i) IN Rim(<<p[1], p[2], 0>>, p[3], DiskNormal(S, i)) : i \in K}
Some36(k) == {1 + ((Rnd(k, 36) + 5 * j) % 36) : j \in 0..7} \cup {1, 10, 19, 28}
Grid == LET sx == Rnd(7, 4) - 2 sy == Rnd(8, 4) - 2 IN
        {<<sx + 2 * i, sy + 3 * j>> : i \in -9..9, j \in -7..7} \* in halves
PlanarProbes(S) ==
   {Pr(<<g[1], g[2], 0>>, 2, Inside(S, g[1], g[2], 2)) : g \in Grid}
   \cup (IF S.kind = "poly" THEN EdgeRim(S) \cup CornerPr(S) ELSE DiskRim(S, Some36(9)))
   \* off the plane: an inner point moved along the normal
   \cup UNION {LET q == IF S.kind = "poly" THEN <<S.c[1][1] + S.c[2][1], S.c[1][2] + S.c[2][2], 2>>
                        ELSE <<S.m[1] + s * S.u[1], S.m[2] + s * S.u[2], 1>>
              IN Rim(<<q[1], q[2], 0>>, q[3], <<0, 0, s>>) \cup {Pr(<<q[1], q[2], s * q[3]>>, q[3], FALSE)} : s \in {-1, 1}}
PlanarRimOk(S) == S.kind = "disk" => \A i \in Some36(9) : LET p == DiskPt(S, i) IN
   Abs(S.m[1]) + Abs(S.m[2]) < 8 /\ S.k[2] <= 3 /\ S.u[1]*S.u[1] + S.u[2]*S.u[2] < 30 => \* (32 bit)
     LET X == (p[1] - S.m[1]*p[3]) \div (IF S.k[2] = 1 THEN 1 ELSE 1) Y == p[2] - S.m[2]*p[3] IN
     LET uu == S.u[1]^2 + S.u[2]^2 c == Pos[i][1] s == Pos[i][2] IN
     X * S.u[1] + Y * S.u[2] = c * S.k[2] * uu /\ Y * S.u[1] - X * S.u[2] = s * S.k[1] * uu
PlanarCase == LET S == PShape IN
   [S |-> S, convex |-> ~IsQuadSplit(S), pr |-> PlanarProbes(S)]
\* ---------------------------------------------------------------- solids
BoxLo == <<Rnd(20, 9) - 4, Rnd(21, 9) - 4, Rnd(22, 9) - 4>>
BoxSz == <<1 + Rnd(23, 6), 1 + Rnd(24, 6), 1 + Rnd(25, 6)>>
E(i, s) == [j \in 1..3 |-> IF j = i THEN s ELSE 0]
G3 == LET k == Rnd(26, 2) IN {<<2 * i + k, 2 * j + k, 2 * l + k>> : i \in -4..4, j \in -4..4, l \in -3..3}
BoxCase == LET lo == BoxLo sz == BoxSz IN
  [box |-> <<lo, [i \in 1..3 |-> lo[i] + sz[i]]>>,
   pr |-> {Pr(g, 2, \A i \in 1..3 : g[i] >= 2 * lo[i] /\ g[i] <= 2 * (lo[i] + sz[i])) : g \in G3}
     \cup UNION {LET p == [j \in 1..3 |-> IF j = i THEN 4 * (lo[j] + (IF s > 0 THEN sz[j] ELSE 0)) ELSE 4 * lo[j] + w[j] * sz[j]] IN
                 Rim(p, 4, E(i, s)) : i \in 1..3, s \in {-1, 1}, w \in {<<0, 0, 0>>, <<4, 4, 4>>, <<1, 2, 3>>}}]
\* spheres: all lattice points plus Pythagorean quadruples
Quads3 == << <<1, 2, 2, 3>>, <<2, 3, 6, 7>>, <<1, 4, 8, 9>>, <<0, 3, 4, 5>>, <<2, 6, 9, 11>>, <<0, 0, 1, 1>> >>
Sgns(v) == {<<a * v[1], b * v[2], c * v[3]>> : a \in {-1, 1}, b \in {-1, 1}, c \in {-1, 1}}
Perms(v) == {<<v[1], v[2], v[3]>>, <<v[2], v[3], v[1]>>, <<v[3], v[1], v[2]>>}
SphereCase == LET q == Quads3[1 + Rnd(27, 6)] r == q[4] m == <<Rnd(20, 9) - 4, Rnd(21, 9) - 4, Rnd(22, 9) - 4>>
                  S == {<<m[1] + v[1], m[2] + v[2], m[3] + v[3]>> : v \in UNION {Sgns(w) : w \in Perms(q)}} IN
  [m |-> m, r |-> r,
   pr |-> {Pr(g, 2, (g[1] - 2*m[1])^2 + (g[2] - 2*m[2])^2 + (g[3] - 2*m[3])^2 <= 4 * r * r) : g \in G3}
          \cup UNION {Rim(p, 1, <<p[1] - m[1], p[2] - m[2], p[3] - m[3]>>) : p \in S}]
\* cylinders (z along the axis, base in z = 0), hollow cylinders, lateral surfaces
CylR == <<5, 1, 13, 65>>[1 + Rnd(30, 4)]
CylH == 1 + Rnd(32, 6)
\* local points: radius (rn/5)*R at position i, height zn/4*H
CPt(i, rn, zn) == LET c == Pos[i][1] s == Pos[i][2] D == 65 * 20 IN <<4 * CylR * rn * c, 4 * CylR * rn * s, 65 * 5 * zn * CylH, D>>
CylPr(i, rn, zn, in) == LET p == CPt(i, rn, zn) IN Pr(<<p[1], p[2], p[3]>>, p[4], in)
Ring(K, in(_, _)) == {CylPr(i, rn, zn, in(rn, zn)) : i \in K, rn \in 0..7, zn \in {-2, 0, 1, 3, 4, 6}}
RimSide(K, rn, sgn) == UNION {LET p == CPt(i, rn, zn) IN Rim(<<p[1], p[2], p[3]>>, p[4], <<sgn * Pos[i][1], sgn * Pos[i][2], 0>>) : i \in K, zn \in {0, 1, 2, 4}}
RimCap(K, RN) == UNION {LET p == CPt(i, rn, zn) IN Rim(<<p[1], p[2], p[3]>>, p[4], <<0, 0, IF zn = 0 THEN -1 ELSE 1>>) : i \in K, rn \in RN, zn \in {0, 4}}
inr5 == 1 + Rnd(31, 4) \* inner radius = inr5/5 * R
CylCase == LET K == {1 + ((Rnd(33, 36) + 7 * j) % 36) : j \in 0..4} \cup {1, 10} IN
  [R |-> CylR, ri |-> inr5, H |-> CylH,
   solid |-> Ring(K, LAMBDA rn, zn : rn <= 5 /\ zn \in 0..4) \cup RimSide(K, 5, 1) \cup RimCap(K, {0, 2, 5}),
   hollow |-> Ring(K, LAMBDA rn, zn : rn <= 5 /\ rn >= inr5 /\ zn \in 0..4) \cup RimSide(K, 5, 1) \cup RimSide(K, inr5, -1) \cup RimCap(K, {inr5, 5}),
   surface |-> Ring(K, LAMBDA rn, zn : rn = 5 /\ zn \in 0..4) \cup RimSide(K, 5, 1) \cup RimSide(K, 5, -1) \cup RimCap(K, {5})]
\* ---------------------------------------------------------------- curves
ai == 1 + Rnd(41, 36)
aj == IF Rnd(43, 12) = 0 THEN ai ELSE 1 + Rnd(42, 36)
\* arc from position i counterclockwise to j; i = j is the full ellipse
OnArc(i, j, k) == i = j \/ ((k - i + 36) % 36) <= ((j - i + 36) % 36)
CurveCase == LET S == MkDisk(1 + Rnd(2, NDisk), t0) IN
  [S |-> S, i |-> ai, j |-> aj,
   ends |-> [a |-> LET p == DiskPt(S, ai) IN p, b |-> LET p == DiskPt(S, aj) IN p],
   arc |-> {LET p == DiskPt(S, k) IN Pr(<<p[1], p[2], 0>>, p[3], OnArc(ai, aj, k)) : k \in 1..36}
           \cup {LET p == DiskPt(S, k) IN Pr(<<p[1], p[2], z * p[3]>>, p[3], FALSE) : k \in {ai, aj}, z \in {-1, 1}}
           \cup {Pr(<<S.m[1] * 65 * 2 + f * Pos[k][1] * S.u[1], S.m[2] * 65 * 2 + f * Pos[k][1] * S.u[2], 0>>, 65 * 2, FALSE) : k \in {2, 5, 13}, f \in {0, 1, 3}},
   ell |-> {LET p == DiskPt(S, k) IN Pr(<<p[1], p[2], 0>>, p[3], TRUE) : k \in 1..36}
           \cup DiskRim(S, Some36(9))
           \cup UNION {LET p == DiskPt(S, k) n == DiskNormal(S, k) IN Rim(<<p[1], p[2], 0>>, p[3], <<-n[1], -n[2], 0>>) \cup Rim(<<p[1], p[2], 0>>, p[3], <<0, 0, 1>>) : k \in Some36(9)}]
\* points on a lattice line: a + (t/4)*u, segment from t = 0 to t = 4m
La == <<Rnd(50, 9) - 4, Rnd(51, 9) - 4, Rnd(52, 9) - 4>>
Lu == LET v == <<Rnd(53, 7) - 3, Rnd(54, 7) - 3, Rnd(55, 7) - 3>> IN IF v = <<0, 0, 0>> THEN <<0, 2, -1>> ELSE v
Lm == 1 + Rnd(56, 3)
Lw == LET e == <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>[1 + Rnd(57, 3)] IN
      <<Lu[2]*e[3] - Lu[3]*e[2], Lu[3]*e[1] - Lu[1]*e[3], Lu[1]*e[2] - Lu[2]*e[1]>>
On(t) == <<4 * La[1] + t * Lu[1], 4 * La[2] + t * Lu[2], 4 * La[3] + t * Lu[3]>>
SegCase == [a |-> La, b |-> On(4 * Lm), u |-> Lu,
   seg |-> {Pr(On(t), 4, t >= 0 /\ t <= 4 * Lm) : t \in -6..(4 * Lm + 6)}
           \cup Rim(On(0), 4, <<-Lu[1], -Lu[2], -Lu[3]>>) \cup Rim(On(4 * Lm), 4, Lu)
           \cup (IF Lw = <<0,0,0>> THEN {} ELSE UNION {Rim(On(t), 4, Lw) : t \in {0, 1, 2, 4 * Lm}}
                 \cup {Pr(<<On(t)[1] + Lw[1], On(t)[2] + Lw[2], On(t)[3] + Lw[3]>>, 4, FALSE) : t \in 0..4}),
   line |-> {Pr(On(t), 4, TRUE) : t \in -6..(4 * Lm + 6)}
           \cup (IF Lw = <<0,0,0>> THEN {} ELSE UNION {Rim(On(t), 4, Lw) : t \in {-3, 0, 7}}),
   plane |-> IF Lw = <<0,0,0>> THEN {} ELSE \* the plane through a with normal w contains the line
           {Pr(On(t), 4, TRUE) : t \in -6..6} \cup UNION {Rim(On(t), 4, <<s*Lw[1], s*Lw[2], s*Lw[3]>>) : t \in {-3, 0, 5}, s \in {-1, 1}},
   w |-> Lw]
Init == seed \in Lo..(Lo + 63)
Next == seed + 64 <= Hi /\ seed' = seed + 64
Meta == CASE Mode = "planar" -> LET S == PShape IN PlanarRimOk(S) /\ \A q \in PlanarProbes(S) : q.n[3] = 0 /\ q.lev = 0 /\ q.p[3] = 0 /\ q.d <= 4 => Inside(S, q.p[1], q.p[2], q.d) = q.in
          [] OTHER -> PosOk
Emit == PrintT(ToJson(CASE Mode = "planar" -> PlanarCase [] Mode = "box" -> BoxCase [] Mode = "sphere" -> SphereCase
                        [] Mode = "cyl" -> CylCase [] Mode = "curve" -> CurveCase [] Mode = "seg" -> SegCase))
=============================================================================
