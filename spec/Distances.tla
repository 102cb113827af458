----------------------------- MODULE Distances -----------------------------
(* P10, P11.  Exact minimum distances.                                        *)
(* "poly": polytopes with lattice corners; squared distances as rationals,    *)
(*         from vertex-face, vertex-edge and edge-edge pairs.                 *)
(* "kkt":  pairs of convex sets with a certificate: q = p + t n, n normal to  *)
(*         A at p and -n normal to B at q, so that the distance is t |n|.     *)
(* "rim":  distances to ellipses, circles and the circles of a cylinder,      *)
(*         also from inside.                                                  *)
EXTENDS Shapes2D, FiniteSets, Json
CONSTANTS Lo, Hi, Mode
VARIABLES seed
Rnd(k, n) == R(seed, k, n)
Pick(s, k) == PickSeq(s, Rnd(k, 30000))
\* ------------------------------------------------------------ fractions and vectors
RECURSIVE CmpF(_, _, _, _)
CmpF(a, b, c, d) == \* sign of a/b - c/d, a, c >= 0, b, d > 0, without products
   LET p == a \div b q == c \div d r == a % b s == c % d IN
   IF p # q THEN Sgn(p - q) ELSE IF r = 0 \/ s = 0 THEN Sgn((IF r = 0 THEN 0 ELSE 1) - (IF s = 0 THEN 0 ELSE 1))
   ELSE -CmpF(b, r, d, s)
FLess(x, y) == CmpF(x[1], x[2], y[1], y[2]) < 0
FMin(S) == CHOOSE x \in S : \A y \in S : ~FLess(y, x)
Fr(a, b) == LET g == Gcd(a, b) IN <<a \div g, b \div g>>
V(a, b) == <<b[1] - a[1], b[2] - a[2], b[3] - a[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Crs(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Prim(n) == LET g == Gcd(Gcd(n[1], n[2]), n[3]) IN IF g = 0 THEN n ELSE <<n[1] \div g, n[2] \div g, n[3] \div g>>
Zero == <<0, 0, 0>>
\* ------------------------------------------------------------ squared distances
PP(p, q) == <<Dot(V(p, q), V(p, q)), 1>>
PE(p, a, b) == LET d == V(a, b) L == Dot(d, d) w == V(a, p) t == Dot(w, d) IN
   IF t <= 0 THEN PP(p, a) ELSE IF t >= L THEN PP(p, b) ELSE Fr(Dot(w, w) * L - t * t, L)
PL(p, a, b) == LET d == V(a, b) L == Dot(d, d) w == V(a, p) t == Dot(w, d) IN Fr(Dot(w, w) * L - t * t, L)
EE(a, b, c, d) == \* common perpendicular of the inner points of two edges, or nothing
   LET u == V(a, b) v == V(c, d) w == V(a, c) n == Prim(Crs(u, v)) IN
   IF n = Zero THEN {} ELSE
   LET nn == Dot(Crs(u, v), n) s == Dot(Crs(w, v), n) t == Dot(Crs(w, u), n) h == Dot(w, n) IN
   IF s < 0 \/ t < 0 \/ s > nn \/ t > nn THEN {} ELSE {Fr(h * h, Dot(n, n))}
Normal(f) == Prim(Crs(V(f[1], f[2]), V(f[1], f[3])))
InPrism(p, f, n) == \A i \in 1..Len(f) : LET b == f[IF i = Len(f) THEN 1 ELSE i + 1] IN Dot(Crs(V(f[i], b), V(f[i], p)), n) >= 0
PF(p, f) == LET n == Normal(f) IN IF InPrism(p, f, n) THEN LET h == Dot(V(f[1], p), n) IN {Fr(h * h, Dot(n, n))} ELSE {}
\* does the edge ab pass through the face from one side to the other?
Pierces(a, b, f) == LET n == Normal(f) ha == Dot(V(f[1], a), n) hb == Dot(V(f[1], b), n) IN
   /\ ha * Sgn(hb) < 0
   /\ \A i \in 1..Len(f) : LET e == V(f[i], f[IF i = Len(f) THEN 1 ELSE i + 1])
                               ga == Dot(Crs(e, V(f[i], a)), n) gb == Dot(Crs(e, V(f[i], b)), n) IN
         \* |hb| ga + |ha| gb >= 0
         CASE ga >= 0 /\ gb >= 0 -> TRUE [] ga < 0 /\ gb < 0 -> FALSE
           [] ga >= 0 /\ gb < 0 -> CmpF(ga, -gb, Abs(ha), Abs(hb)) >= 0
           [] OTHER -> CmpF(gb, -ga, Abs(hb), Abs(ha)) >= 0
\* complexes: corners, edges, faces (corner sequences), solid?
Cx(v, e, f, s) == [v |-> v, e |-> e, f |-> f, solid |-> s]
Inner(p, C) == C.solid /\ \A f \in C.f : Dot(V(f[1], p), Normal(f)) <= 0
Dist2(A, B) ==
   IF (\E p \in A.v : Inner(p, B)) \/ (\E p \in B.v : Inner(p, A))
      \/ (\E e \in A.e, f \in B.f : Pierces(e[1], e[2], f)) \/ (\E e \in B.e, f \in A.f : Pierces(e[1], e[2], f)) THEN <<0, 1>> ELSE
   FMin({PP(p, q) : p \in A.v, q \in B.v}
        \cup {PE(p, e[1], e[2]) : p \in A.v, e \in B.e} \cup {PE(p, e[1], e[2]) : p \in B.v, e \in A.e}
        \cup UNION {PF(p, f) : p \in A.v, f \in B.f} \cup UNION {PF(p, f) : p \in B.v, f \in A.f}
        \cup UNION {EE(e[1], e[2], g[1], g[2]) : e \in A.e, g \in B.e})
Bnd(C) == IF C.solid THEN [C EXCEPT !.solid = FALSE] ELSE [C EXCEPT !.f = {}]
Ring(c) == {<<c[i], c[IF i = Len(c) THEN 1 ELSE i + 1]>> : i \in 1..Len(c)}
RangeOf(c) == {c[i] : i \in 1..Len(c)}
Face(c) == Cx(RangeOf(c), Ring(c), {c}, FALSE)
BoxC(l, z) == LET P(i, j, k) == <<l[1] + i * z[1], l[2] + j * z[2], l[3] + k * z[3]>>
                  F == { <<P(0,0,0), P(0,1,0), P(1,1,0), P(1,0,0)>>, <<P(0,0,1), P(1,0,1), P(1,1,1), P(0,1,1)>>,
                         <<P(0,0,0), P(1,0,0), P(1,0,1), P(0,0,1)>>, <<P(0,1,0), P(0,1,1), P(1,1,1), P(1,1,0)>>,
                         <<P(0,0,0), P(0,0,1), P(0,1,1), P(0,1,0)>>, <<P(1,0,0), P(1,1,0), P(1,1,1), P(1,0,1)>> } IN
              Cx(UNION {RangeOf(f) : f \in F}, UNION {Ring(f) : f \in F}, F, TRUE)
\* drawn shapes
Small == << << <<0,0>>, <<2,0>>, <<0,2>> >>, << <<0,0>>, <<3,1>>, <<1,3>> >>, << <<0,0>>, <<2,0>>, <<2,2>>, <<0,2>> >>,
            << <<0,0>>, <<3,0>>, <<2,1>>, <<0,2>> >>, << <<1,0>>, <<3,1>>, <<2,3>>, <<0,2>> >>, << <<0,0>>, <<3,0>>, <<3,1>>, <<0,1>> >>,
            << <<0,0>>, <<2,0>>, <<3,1>>, <<2,2>>, <<0,1>> >>, << <<1,0>>, <<2,0>>, <<3,1>>, <<2,3>>, <<1,3>>, <<0,1>> >> >>
RV(k, m) == <<Rnd(k, 2*m + 1) - m, Rnd(k + 1, 2*m + 1) - m, Rnd(k + 2, 2*m + 1) - m>>
Bases == << << <<1,0,0>>, <<0,1,0>> >>, << <<0,1,0>>, <<0,0,1>> >>, << <<1,1,0>>, <<0,0,1>> >>, << <<1,0,1>>, <<0,1,-1>> >>, << <<1,-1,0>>, <<1,1,1>> >>,
            << <<1,1,1>>, <<-1,0,1>> >>, << <<0,2,1>>, <<1,0,0>> >>, << <<2,1,0>>, <<0,-1,1>> >>, << <<1,1,-1>>, <<1,-1,1>> >>, << <<-1,2,0>>, <<1,0,-2>> >> >>
PolyAt(o, k) == LET c == Pick(Small, k) b == Pick(Bases, k + 1) IN [i \in 1..Len(c) |-> Add(o, Add(Mul(c[i][1], b[1]), Mul(c[i][2], b[2])))]
SegEnd(k) == LET d == RV(k, 4) IN IF d = Zero THEN <<1, 0, 2>> ELSE d
Spread == 2 + Rnd(9, 3)
PShape(k) == LET o == RV(k, Spread) t == Rnd(k + 3, 12) IN
   CASE t < 2 -> [kind |-> "point", c |-> <<o>>] [] t < 5 -> [kind |-> "seg", c |-> <<o, Add(o, SegEnd(k + 4))>>]
     [] t < 9 -> [kind |-> "poly", c |-> PolyAt(o, k + 7)] [] OTHER -> [kind |-> "box", c |-> <<o, <<1 + Rnd(k + 10, 4), 1 + Rnd(k + 11, 4), 1 + Rnd(k + 12, 4)>> >>]
CxOf(S) == CASE S.kind = "point" -> Cx(RangeOf(S.c), {}, {}, FALSE) [] S.kind = "seg" -> Cx(RangeOf(S.c), {<<S.c[1], S.c[2]>>}, {}, FALSE)
             [] S.kind = "poly" -> Face(S.c) [] S.kind = "box" -> BoxC(S.c[1], S.c[2])
HasBnd(S) == S.kind \in {"poly", "box"}
PA == PShape(100)
PB == PShape(200)
Lattice(S, k) == \* lattice points near the shape
   LET c == S.c[1] m == IF S.kind = "box" THEN <<c, Add(c, S.c[2])>> ELSE <<c, S.c[Len(S.c)]>> IN
   {Add(m[1 + Rnd(k + 7*j, 2)], <<Rnd(k + 7*j + 1, 5) - 2, Rnd(k + 7*j + 2, 5) - 2, Rnd(k + 7*j + 3, 5) - 2>>) : j \in 1..6}
   \cup (IF S.kind = "poly" THEN {Add(S.c[2], V(S.c[1], S.c[Len(S.c)])), Add(S.c[1], V(S.c[3], S.c[2])), S.c[2], S.c[Len(S.c)]}
        \cup {LET u == V(S.c[1], S.c[2]) g == Gcd(Gcd(u[1], u[2]), u[3]) IN Add(S.c[1], Mul(Rnd(k + 60, 2*g + 1) - (g \div 2), Prim(u)))} ELSE {})
PCase == LET A == CxOf(PA) B == CxOf(PB) IN
   [pr |-> IF HasBnd(PB) THEN {[p |-> p, d |-> Dist2(Cx({p}, {}, {}, FALSE), B), b |-> Dist2(Cx({p}, {}, {}, FALSE), Bnd(B))] : p \in Lattice(PB, 300)} ELSE {},
    A |-> PA, B |-> PB, d |-> Dist2(A, B), dab |-> IF HasBnd(PB) THEN Dist2(A, Bnd(B)) ELSE <<0, 1>>, dba |-> IF HasBnd(PA) THEN Dist2(B, Bnd(A)) ELSE <<0, 1>>,
    dbb |-> IF HasBnd(PA) /\ HasBnd(PB) THEN Dist2(Bnd(A), Bnd(B)) ELSE <<0, 1>>,
    line |-> IF PA.kind = "seg" THEN <<PL(PB.c[1], PA.c[1], PA.c[2])>> ELSE <<>>]
\* distances are symmetric, at most the distances of corners, at least the gap of the extents; a boundary is never nearer than its set
GapOn(A, B, i) == LET a == {p[i] : p \in A.v} b == {p[i] : p \in B.v} mn(S) == CHOOSE x \in S : \A y \in S : x <= y mx(S) == CHOOSE x \in S : \A y \in S : y <= x IN
   Max2(0, Max2(mn(a) - mx(b), mn(b) - mx(a)))
PMeta == LET A == CxOf(PA) B == CxOf(PB) d == Dist2(A, B) g == <<GapOn(A, B, 1), GapOn(A, B, 2), GapOn(A, B, 3)>> IN
   /\ Dist2(B, A) = d /\ ~FLess(d, <<Dot(g, g), 1>>)
   /\ \A p \in A.v, q \in B.v : ~FLess(PP(p, q), d)
   /\ HasBnd(PB) => ~FLess(PCase.dab, d) /\ (d[1] > 0 => PCase.dab = d \/ ~PB.kind = "box")
   /\ HasBnd(PA) => ~FLess(PCase.dba, d)
\* ------------------------------------------------------------ certificates
Q1 == << <<65, 0>>, <<63, 16>>, <<60, 25>>, <<56, 33>>, <<52, 39>>, <<39, 52>>, <<33, 56>>, <<25, 60>>, <<16, 63>> >>
Pos == [i \in 1..36 |-> Rot(Q1[1 + ((i - 1) % 9)], (i - 1) \div 9)]
Quads3 == << <<1, 2, 2, 3>>, <<2, 3, 6, 7>>, <<1, 4, 8, 9>>, <<0, 3, 4, 5>>, <<2, 6, 9, 11>>, <<0, 0, 1, 1>> >>
\* contact: a point p/d of the shape and an outward normal n there
Ct(S, p, d, n) == [S |-> S, p |-> p, d |-> d, n |-> n]
Corners(S) == IF S.kind = "box" THEN CxOf(S).v ELSE RangeOf(S.c)
PolyContact(S, k) == \* support points of a direction
   LET n == IF Rnd(k, 3) = 0 THEN Pick(<< <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<-1,0,0>>, <<0,-1,0>>, <<0,0,-1>>, <<1,1,0>>, <<0,1,-1>>, <<-1,0,1>> >>, k + 1)
            ELSE LET v == RV(k + 1, 3) IN IF v = Zero THEN <<1, -2, 3>> ELSE v
       m == IF S.kind = "poly" /\ Rnd(k + 4, 4) = 0 THEN Normal(S.c) ELSE n
       C == Corners(S)
       X == {c \in C : \A e \in C : Dot(V(c, e), m) <= 0}
       RECURSIVE Sum(_)
       Sum(T) == IF T = {} THEN Zero ELSE LET c == CHOOSE c \in T : TRUE IN Add(c, Sum(T \ {c}))
       one == CHOOSE c \in X : TRUE
   IN IF Rnd(k + 5, 4) = 0 THEN Ct(S, one, 1, m) ELSE Ct(S, Sum(X), Cardinality(X), m)
CurvedKinds == <<"disk", "disk", "ellipse", "circle", "arc", "cyl", "cylsurf", "cylsurf", "sphere">>
CAB(k) == LET a == 1 + Rnd(k, 9) IN <<a, 1 + Rnd(k + 1, a)>>
Curved(kind, k) == CASE kind \in {"disk", "ellipse", "arc"} -> [kind |-> kind, a |-> CAB(k)[1], b |-> CAB(k)[2]]
                     [] kind = "circle" -> [kind |-> kind, a |-> CAB(k)[1], b |-> CAB(k)[1]]
                     [] OTHER -> [kind |-> kind, a |-> CAB(k)[1], b |-> 1 + Rnd(k + 2, 9)] \* radius, height
CurvedContact(kind, k) ==
   LET S == Curved(kind, k) i == 1 + Rnd(k + 3, 36) c == Pos[i][1] s == Pos[i][2] al == 1 + Rnd(k + 4, 3) ga == Rnd(k + 5, 7) - 3
       flat == kind \in {"disk", "ellipse", "circle", "arc"} IN
   CASE flat /\ kind = "disk" /\ Rnd(k + 6, 4) = 0 -> \* an inner point, or a point of the rim with normal off the plane
          LET f == Rnd(k + 7, 5) IN Ct(S, <<f * S.a * c, f * S.b * s, 0>>, 65 * 4, <<0, 0, IF ga < 0 THEN -1 ELSE 1>>)
     [] flat /\ ~(kind = "disk" /\ Rnd(k + 6, 4) = 0) -> Ct(S, <<S.a * c, S.b * s, 0>>, 65, <<al * S.b * c, al * S.a * s, ga * 65>>)
     [] kind = "cyl" /\ Rnd(k + 6, 3) = 0 -> LET f == Rnd(k + 7, 5) u == Rnd(k + 8, 2) IN Ct(S, <<f * S.a * c, f * S.a * s, u * 4 * 65 * S.b>>, 4 * 65, <<0, 0, 2 * u - 1>>)
     [] kind \in {"cyl", "cylsurf"} /\ ~(kind = "cyl" /\ Rnd(k + 6, 3) = 0) ->
          LET z == Rnd(k + 7, 5) IN Ct(S, <<4 * S.a * c, 4 * S.a * s, z * 65 * S.b>>, 4 * 65,
                                       <<al * c, al * s, IF z = 0 THEN -65 * Abs(ga) ELSE IF z = 4 THEN 65 * Abs(ga) ELSE 0>>)
     [] kind = "sphere" -> LET q == Pick(Quads3, k + 6) sg == [j \in 1..3 |-> 2 * Rnd(k + 7 + j, 2) - 1]
                               n == <<sg[1] * q[1], sg[2] * q[2], sg[3] * q[3]>> IN Ct(S, Mul(S.a, n), q[4], n)
Contact(k) == IF Rnd(k, 3) = 0 THEN LET S == PShape(k + 20) IN PolyContact(S, k + 40) ELSE CurvedContact(Pick(CurvedKinds, k + 1), k + 50)
\* arcs: from one position to another around the contact
KCase == [A |-> Contact(1000), B |-> Contact(2000), gap |-> Rnd(1, 7), share |-> Rnd(2, 6) = 0, arcs |-> <<1 + Rnd(3, 12), 1 + Rnd(4, 12)>>]
\* the normal supports the whole shape (checked at known points; a support function for the ellipse)
Supports(C) == LET S == C.S IN
   CASE S.kind \in {"point", "seg", "poly", "box"} -> \A c \in Corners(S) : Dot(C.n, V(C.p, Mul(C.d, c))) <= 0
     [] S.kind \in {"disk", "ellipse", "circle", "arc"} -> C.d = 65 => \A i \in 1..36 :
           C.n[1] * (S.a * Pos[i][1] - C.p[1]) + C.n[2] * (S.b * Pos[i][2] - C.p[2]) <= 0
     [] S.kind = "sphere" -> Dot(C.n, C.n) * S.a * S.a = Dot(C.p, C.p) /\ Dot(C.p, C.n) = S.a * C.d * C.d
     [] OTHER -> \A i \in 1..36, z \in {0, 4 * 65 * S.b} : C.n[1] * (4 * S.a * Pos[i][1] - C.p[1]) + C.n[2] * (4 * S.a * Pos[i][2] - C.p[2]) + C.n[3] * (z - C.p[3]) <= 0
\* ------------------------------------------------------------ distances to rims
\* from the point E(i) of the ellipse (a, b) inwards along its normal by the fraction f/8 of the way to the major axis, or outwards by f/8 of it, and by h off the plane
RA == 1 + Rnd(1, 12)
RB == 1 + Rnd(2, RA)
EllPt == [i |-> 1 + Rnd(3, 36), f |-> Rnd(4, 17) - 8, h |-> Rnd(5, 9) - 4, len |-> 1 + Rnd(6, 3)]
\* X - E = -(b^2 c/a, b s): the inward normal meets the major axis there; check the direction and that no known point of the ellipse is nearer than E
EllMeta == LET i == EllPt.i c == Pos[i][1] s == Pos[i][2] IN
   \* the point with fraction f: ((8 a^2 - f b^2) c, (8 - f) a b s) / (8 * 65 a)
   RA <= 5 => \A j \in 1..36 : LET x == (8 * RA * RA - EllPt.f * RB * RB) * c y == (8 - EllPt.f) * RA * RB * s
       dx(k) == x - 8 * RA * RA * Pos[k][1] dy(k) == y - 8 * RA * RB * Pos[k][2] IN
       dx(i) * dx(i) + dy(i) * dy(i) <= dx(j) * dx(j) + dy(j) * dy(j)
\* circle of radius 65 (in units of 1/65 of the radius): points at Pythagorean radius
CylPt == [i |-> 1 + Rnd(7, 36), rho |-> Rnd(8, 17), z |-> Rnd(9, 25) - 8, H |-> 1 + Rnd(10, 8)]  \* radius 8, rho in units
CylD2 == LET g(z0) == (CylPt.rho - 8) * (CylPt.rho - 8) + (CylPt.z - z0) * (CylPt.z - z0) IN Min2(g(0), g(CylPt.H))
\* a disk of radius r at distance m from the axis, in a plane at height z: distance to the circles
InDisk == [r |-> 1 + Rnd(11, 6), m |-> Rnd(12, 12), z |-> Rnd(13, 17) - 6, i |-> 1 + Rnd(14, 36)]
DiskD2 == LET m == InDisk.m r == InDisk.r
              \* planar distance of the closed disk to the circle of radius 8: zero when it meets it
              pl == IF m + r < 8 THEN 8 - m - r ELSE IF m - r > 8 THEN m - r - 8 ELSE 0
              g(z0) == pl * pl + (InDisk.z - z0) * (InDisk.z - z0) IN [low |-> g(0), both |-> Min2(g(0), g(CylPt.H))]
\* the solid cylinder and the ball: distances of the point to their surfaces
Solid2 == LET r == CylPt.rho z == CylPt.z h == CylPt.H er == Max2(0, r - 8) ez == Max2(0, Max2(-z, z - h)) IN
   IF er > 0 \/ ez > 0 THEN er * er + ez * ez ELSE LET m == Min2(8 - r, Min2(z, h - z)) IN m * m
\* a segment in a plane through the axis, and a rectangle at right angles to that plane: the rims are nearest in that plane
\* (a rectangle outside of the cylinder only: its points are nowhere nearer to the axis than in the plane)
Slant == LET t == Rnd(15, 3) r == IF t = 0 THEN Rnd(16, 17) ELSE 8 + Rnd(16, 6) z == Rnd(17, 17) - 6
             r2 == IF t = 0 THEN Rnd(18, 17) ELSE r + Rnd(18, 8) z2 == Rnd(19, 33) - 12
         IN [i |-> 1 + Rnd(20, 36), p |-> <<r, z>>, q |-> IF <<r2, z2>> = <<r, z>> THEN <<r2, z2 + 1>> ELSE <<r2, z2>>, w |-> 1 + Rnd(21, 5), out |-> t > 0]
SlantD2 == LET a == <<Slant.p[1], Slant.p[2], 0>> b == <<Slant.q[1], Slant.q[2], 0>> IN
   [low |-> PE(<<8, 0, 0>>, a, b), both |-> FMin({PE(<<8, 0, 0>>, a, b), PE(<<8, CylPt.H, 0>>, a, b)})]
RCase == [sl |-> Slant, sld2 |-> SlantD2, sd2 |-> Solid2, a |-> RA, b |-> RB, e |-> EllPt, c |-> CylPt, cd2 |-> CylD2, low2 |-> (CylPt.rho - 8)^2 + CylPt.z^2, k |-> InDisk, kd2 |-> DiskD2]
Init == seed \in Lo..(Lo + 63)
Next == seed + 64 <= Hi /\ seed' = seed + 64
Meta == CASE Mode = "poly" -> PMeta [] Mode = "kkt" -> Supports(KCase.A) /\ Supports(KCase.B) [] Mode = "rim" -> EllMeta
Emit == PrintT(ToJson(CASE Mode = "poly" -> PCase [] Mode = "kkt" -> KCase [] Mode = "rim" -> RCase))
=============================================================================
