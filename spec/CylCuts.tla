------------------------------ MODULE CylCuts ------------------------------
(* P07, P08.  Planar shapes against the lateral surface of the cylinder of    *)
(* radius 5 around the z-axis, 0 <= z <= H.                                   *)
(* "axial": the plane x = a, parallel to the axis: contact along the lines    *)
(*          y = +-sqrt(25 - a^2), each an interval of z.                      *)
(* "round": the plane z = m (a x + b y - c), or z = h: the contact projects   *)
(*          onto the circle, which the outline of the shape (given by its     *)
(*          projection) and the rims of the cylinder cross only at the twelve *)
(*          integer points (nodes) of the circle.  The contact is a union of  *)
(*          the arcs between neighbouring nodes (cells) and single nodes.     *)
EXTENDS Shapes2D, FiniteSets, Json
CONSTANTS Lo, Hi, Mode
VARIABLES seed
Rnd(k, n) == R(seed, k, n)
Pick(s, k) == PickSeq(s, Rnd(k, 30000))
Node == << <<5,0>>, <<4,3>>, <<3,4>>, <<0,5>>, <<-3,4>>, <<-4,3>>, <<-5,0>>, <<-4,-3>>, <<-3,-4>>, <<0,-5>>, <<3,-4>>, <<4,-3>> >>
\* a rational point <<x, y, d>> of the circle within each cell
Quarter == << <<60,25,13>>, <<105,100,29>>, <<25,60,13>> >>
Turn(p, r) == CASE r = 0 -> p [] r = 1 -> <<-p[2], p[1], p[3]>> [] r = 2 -> <<-p[1], -p[2], p[3]>> [] OTHER -> <<p[2], -p[1], p[3]>>
Cell == [k \in 1..12 |-> Turn(Quarter[1 + ((k - 1) % 3)], (k - 1) \div 3)]
IsNode(x, y) == \E k \in 1..12 : Node[k] = <<x, y>>
\* ---------------------------------------------------------------- outlines crossing the circle at nodes only
EdgeOK(P, Q) ==
  LET dx == Q[1] - P[1] dy == Q[2] - P[2] dd == dx*dx + dy*dy pd == P[1]*dx + P[2]*dy
      f0 == P[1]*P[1] + P[2]*P[2] - 25 f1 == Q[1]*Q[1] + Q[2]*Q[2] - 25
      di == pd * pd - dd * f0 IN
  /\ dd > 0
  /\ \/ di < 0
     \/ f0 < 0 /\ f1 < 0
     \/ f0 > 0 /\ f1 > 0 /\ (pd >= 0 \/ pd + dd <= 0)
     \/ IsSquare(di) /\ \A s \in {-1, 1} : LET t == -pd + s * ISqrt(di) IN \* root t/dd
           t >= 0 /\ t <= dd => LET x == P[1]*dd + t*dx y == P[2]*dd + t*dy IN x % dd = 0 /\ y % dd = 0 /\ IsNode(x \div dd, y \div dd)
Coord == <<-8, -6, -5, -4, -3, 0, 3, 4, 5, 6, 8>>
Try(k) == IF Rnd(k, 3) = 0 THEN Node[1 + Rnd(k + 1, 12)] ELSE IF Rnd(k, 9) = 1 THEN <<Rnd(k + 1, 17) - 8, Rnd(k + 2, 17) - 8>> ELSE <<Pick(Coord, k + 1), Pick(Coord, k + 2)>>
Left(a, b, c) == Cross2(a, b, c) > 0
First(S) == CHOOSE t \in S : \A u \in S : t <= u
P1 == Try(100)
P2 == LET T == {t \in 1..20 : EdgeOK(P1, Try(200 + 3 * t))} IN IF T = {} THEN <<>> ELSE Try(200 + 3 * First(T))
P3 == LET p == P1 q == P2 T == {t \in 1..40 : LET z == Try(300 + 3 * t) IN Left(p, q, z) /\ EdgeOK(q, z) /\ EdgeOK(z, p)} IN
      IF q = <<>> \/ T = {} THEN <<>> ELSE Try(300 + 3 * First(T))
P4 == LET p == P1 q == P2 r == P3 T == {t \in 1..60 : LET z == Try(500 + 3 * t) IN Left(q, r, z) /\ Left(r, z, p) /\ Left(z, p, q) /\ EdgeOK(r, z) /\ EdgeOK(z, p)} IN
      IF r = <<>> \/ T = {} THEN <<>> ELSE Try(500 + 3 * First(T))
Rect == LET i == 1 + Rnd(80, 10) j == i + 1 + Rnd(81, 11 - i) k == 1 + Rnd(82, 10) l == k + 1 + Rnd(83, 11 - k) IN
        << <<Coord[i], Coord[k]>>, <<Coord[j], Coord[k]>>, <<Coord[j], Coord[l]>>, <<Coord[i], Coord[l]>> >>
RoundPoly == IF Rnd(84, 3) = 0 THEN Rect ELSE LET a == P1 b == P2 c == P3 d == P4 IN
             IF c = <<>> THEN Rect ELSE IF d = <<>> \/ Rnd(85, 4) = 0 THEN <<a, b, c>> ELSE <<a, b, c, d>>
\* disks: circles (c, r2) through a node whose mirror image about the line of the centres is a node
MirrorOK(n, c) == LET cc == c[1]*c[1] + c[2]*c[2] w == n[1]*c[1] + n[2]*c[2] x == 2*w*c[1] - n[1]*cc y == 2*w*c[2] - n[2]*cc IN
                  cc > 0 /\ x % cc = 0 /\ y % cc = 0 /\ IsNode(x \div cc, y \div cc)
RoundDisk == LET n == Node[1 + Rnd(90, 12)] c(t) == <<Rnd(400 + 2*t, 17) - 8, Rnd(401 + 2*t, 17) - 8>>
                 T == {t \in 1..40 : c(t) # n /\ MirrorOK(n, c(t))} IN
             IF T = {} \/ Rnd(91, 6) = 0 THEN LET z == <<Rnd(92, 5) - 2, Rnd(93, 5) - 2>> IN \* not crossing: around, inside
                                   [c |-> z, r2 |-> IF Rnd(94, 2) = 0 THEN 64 + Rnd(95, 40) ELSE 1 + Rnd(95, 3)]
             ELSE LET z == c(First(T)) IN [c |-> z, r2 |-> (z[1]-n[1])*(z[1]-n[1]) + (z[2]-n[2])*(z[2]-n[2])]
RoundShape == IF Rnd(70, 3) = 0 THEN LET d == RoundDisk IN [kind |-> "disk", c |-> <<d.c>>, r2 |-> d.r2] ELSE [kind |-> "poly", c |-> RoundPoly, r2 |-> 0]
In(S, x, y, d) == IF S.kind = "poly" THEN PolyWhere(S, x, y, d)
                  ELSE LET X == x - S.c[1][1] * d Y == y - S.c[1][2] * d IN Sgn(S.r2 * d * d - X * X - Y * Y)
\* the plane: z = (mn/md) (a x + b y - c) within c <= a x + b y <= e, or z = h
ChordVals(a, b) == {a * Node[k][1] + b * Node[k][2] : k \in 1..12}
Plane == IF Rnd(60, 3) = 0 THEN [t |-> "flat", h |-> Rnd(61, 5), H |-> 4 - Rnd(62, 2), a |-> 0, b |-> 0, c |-> 0, e |-> 0, m |-> <<1, 1>>]
         ELSE LET i == Node[1 + Rnd(63, 12)] j == Node[1 + Rnd(64, 12)]
                  g == IF i = j THEN Gcd(i[1], i[2]) ELSE Gcd(j[1] - i[1], j[2] - i[2])
                  a == IF i = j THEN i[1] \div g ELSE (j[2] - i[2]) \div g
                  b == IF i = j THEN i[2] \div g ELSE (i[1] - j[1]) \div g
                  V == {a * i[1] + b * i[2]} \cup ChordVals(a, b) v == a * i[1] + b * i[2]
                  lo == -5 * (Abs(a) + Abs(b)) - 1 hi == -lo
                  \* values hit only at nodes: those whose chord ends are nodes
                  ok(c) == LET nn == a*a + b*b IN IsSquare(nn * 25 - c * c) /\ LET s == ISqrt(nn * 25 - c * c) IN
                              /\ (a*c - b*s) % nn = 0 /\ (b*c + a*s) % nn = 0 /\ (a*c + b*s) % nn = 0 /\ (b*c - a*s) % nn = 0
                              /\ IsNode((a*c - b*s) \div nn, (b*c + a*s) \div nn) /\ IsNode((a*c + b*s) \div nn, (b*c - a*s) \div nn)
                  W == {c \in V : ok(c)}
                  up == {c \in W : c > v} IN
              IF Rnd(65, 3) = 0 THEN [t |-> "oblique", h |-> 0, H |-> 0, a |-> a, b |-> b, c |-> lo, e |-> hi, m |-> Pick(<< <<1,1>>, <<1,3>>, <<2,1>>, <<1,20>> >>, 66)]
              ELSE [t |-> "oblique", h |-> 0, H |-> 0, a |-> a, b |-> b, c |-> v, e |-> IF up = {} \/ Rnd(67, 2) = 0 THEN Max2(hi, v + 1) ELSE First(up), m |-> Pick(<< <<1,1>>, <<1,3>>, <<2,1>>, <<1,20>> >>, 66)]
InZ(Q, x, y, d) == IF Q.t = "flat" THEN Q.h <= Q.H ELSE LET w == Q.a * x + Q.b * y IN Q.c * d <= w /\ w <= Q.e * d
OnZ(Q, x, y) == IF Q.t = "flat" THEN FALSE ELSE Q.a * x + Q.b * y \in {Q.c, Q.e}
CellIn(S, Q) == {k \in 1..12 : In(S, Cell[k][1], Cell[k][2], Cell[k][3]) >= 0 /\ InZ(Q, Cell[k][1], Cell[k][2], Cell[k][3])}
NodeIn(S, Q) == {k \in 1..12 : In(S, Node[k][1], Node[k][2], 1) >= 0 /\ InZ(Q, Node[k][1], Node[k][2], 1)}
Prev(k) == IF k = 1 THEN 12 ELSE k - 1
Succ(k) == IF k = 12 THEN 1 ELSE k + 1
\* maximal arcs <<first node, number of cells>>
Run(C, k) == CHOOSE n \in 1..12 : (\A i \in 0..(n - 1) : (1 + ((k - 1 + i) % 12)) \in C) /\ (1 + ((k - 1 + n) % 12)) \notin C
Arcs(C) == IF C = 1..12 THEN {} ELSE {<<k, Run(C, k)>> : k \in {k \in C : Prev(k) \notin C}}
RoundCase == LET S == RoundShape Q == Plane C == CellIn(S, Q) N == NodeIn(S, Q) IN
   [mode |-> "round", S |-> S, Q |-> Q, full |-> C = 1..12, arcs |-> Arcs(C), cells |-> C,
    pts |-> {k \in N : k \notin C /\ Prev(k) \notin C}, nodes |-> N]
RoundMeta == LET r == RoundCase IN
   \* closed: the ends of every cell belong to the contact; convex outlines leave at most as many arcs as corners (and two rims)
   /\ \A k \in r.cells : {k, Succ(k)} \subseteq r.nodes
   /\ Cardinality(r.arcs) <= (IF r.S.kind = "disk" THEN 1 ELSE Len(r.S.c)) + 2
   /\ r.S.kind = "poly" => (Convex(r.S) \/ Len(r.S.c) < 3)
   \* arcs end and points lie where the outline or a rim is
   /\ \A k \in {a[1] : a \in r.arcs} \cup {1 + ((a[1] - 1 + a[2]) % 12) : a \in r.arcs} \cup r.pts :
        In(r.S, Node[k][1], Node[k][2], 1) = 0 \/ OnZ(r.Q, Node[k][1], Node[k][2])
\* ---------------------------------------------------------------- planes parallel to the axis
AxShape == LET t == <<Rnd(13, 15) - 5, Rnd(14, 15) - 7>> IN \* first coordinate along the axis
           IF Rnd(10, 20) < 12 THEN MkPoly(1 + Rnd(11, NPoly), Rnd(12, 4), Rnd(15, 2), t) ELSE MkDisk(1 + Rnd(11, NDisk), t)
Down(S, s) == IF S.kind = "poly" THEN [S EXCEPT !.c = [i \in 1..Len(S.c) |-> <<S.c[i][1], S.c[i][2] - s>>]] ELSE [S EXCEPT !.m = <<S.m[1], S.m[2] - s>>]
AxH == 1 + Rnd(20, 10)
AxCase == LET S == AxShape a == Pick(<<0, 3, 4, -3, -4, 5, -5, 0, 6, 7>>, 21) s == IF Abs(a) = 0 THEN 5 ELSE IF Abs(a) = 3 THEN 4 ELSE IF Abs(a) = 4 THEN 3 ELSE 0
              box == [n |-> 1, lo |-> QInt(0), hi |-> QInt(AxH)]
              I(y) == Common(OnAxis(Down(S, y)), box)
              Y == IF Abs(a) > 5 THEN <<>> ELSE IF s = 0 THEN <<0>> ELSE <<s, -s>> IN
          [mode |-> "axial", A |-> S, a |-> a, H |-> AxH, parts |-> [k \in 1..Len(Y) |-> [y |-> Y[k], is |-> I(Y[k]), kind |-> Kind(I(Y[k]))]]]
AxMeta == LET r == AxCase IN \A k \in 1..Len(r.parts) : \A h \in 0..(2 * r.H) :
   (Where(r.A, h, 2 * r.parts[k].y, 2) >= 0) <=> (r.parts[k].is.n = 1 /\ QSgnMinus(r.parts[k].is.lo, <<h, 2>>) <= 0 /\ QSgnMinus(r.parts[k].is.hi, <<h, 2>>) >= 0)
Init == seed \in Lo..(Lo + 63)
Next == seed + 64 <= Hi /\ seed' = seed + 64
Meta == IF Mode = "axial" THEN AxMeta ELSE RoundMeta
Emit == PrintT(ToJson(IF Mode = "axial" THEN AxCase ELSE RoundCase))
=============================================================================
