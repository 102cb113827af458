----------------------------- MODULE Admissible -----------------------------
(* P04.  A constraints object and a scene of entities.  The state is the set  *)
(* of settings of the object; operations set, replace and neglect constraints *)
(* and evaluate entities against each other, singly or as lists.  The verdict *)
(* is three-valued: "T", "F", or "?" where a quantity is too close to its     *)
(* threshold (1 percent) or not known exactly to the model.                 *)
(* Scenes ("Mode"):                                                           *)
(*  line   shapes in planes through a common axis                             *)
(*  space  lattice polygons scattered in space                                *)
(*  par    circular disks in parallel planes                                  *)
(*  cyl    planar shapes against a cylinder surface                           *)
(*  flat   coplanar rectangular faces                                         *)
EXTENDS Shapes2D, FiniteSets, Json
CONSTANTS Lo, Hi, Mode, MaxLen
VARIABLES seed, scene, st, log
D == INSTANCE Distances WITH Mode <- "poly"
Rnd(k, n) == R(seed, k, n)
CmpF(a, b) == D!CmpF(a[1], a[2], b[1], b[2])
Sq(t) == <<t[1] * t[1], t[2] * t[2]>>
\* ---------------------------------------------------------------- quantities
\* a length is lo/den .. hi/den; a distance is sqrt(s), or r - sqrt(s)
Len1(q) == [lo |-> q, hi |-> q]
Cmp(x, t) == \* sign of the distance x minus the rational t > 0
   IF x.r = <<0, 1>> THEN CmpF(x.s, Sq(t))
   ELSE LET u == x.r[1] * t[2] - t[1] * x.r[2] IN IF u < 0 THEN -1 ELSE CmpF(Sq(<<u, x.r[2] * t[2]>>), x.s)
Up(t) == <<t[1] * 101, t[2] * 100>>
Dn(t) == <<t[1] * 99, t[2] * 100>>
GE(x, t) == IF x.r = <<-1, 1>> THEN "?" ELSE IF Cmp(x, Up(t)) >= 0 THEN "T" ELSE IF Cmp(x, Dn(t)) < 0 THEN "F" ELSE "?"
MagGE(m, t) == IF CmpF(m.lo, Up(t)) >= 0 THEN "T" ELSE IF CmpF(m.hi, Dn(t)) < 0 THEN "F" ELSE "?"
\* angle at least arccos(sqrt(c)) iff the squared cosine is at most c
AngGE(cs, c) == IF CmpF(cs, <<c[1] * 995, c[2] * 1000>>) < 0 THEN "T" ELSE IF CmpF(cs, <<c[1] * 1005, c[2] * 1000>>) > 0 THEN "F" ELSE "?"
All(S) == IF "F" \in S THEN "F" ELSE IF "?" \in S THEN "?" ELSE "T"
DSq(q) == [r |-> <<0, 1>>, s |-> q]
DR(r, q) == [r |-> r, s |-> q]
Unknown == [r |-> <<-1, 1>>, s |-> <<0, 1>>]
\* ---------------------------------------------------------------- boundary distance in the plane
\* distance of the inner point (x/d, 0) to the boundary; 0 on the boundary
BdP(P, x, d) == LET Q == {LET a == P.c[i] b == P.c[Nxt(P, i)] ex == b[1] - a[1] ey == b[2] - a[2]
                              c == Abs(ex * (-a[2] * d) - ey * (x - a[1] * d)) IN D!Fr(c * c, d * d * (ex * ex + ey * ey)) : i \in 1..NC(P)}
                IN DSq(CHOOSE q \in Q : \A p \in Q : CmpF(q, p) <= 0)
Bd(S, x, d) == IF Where(S, x, 0, d) = 0 THEN DSq(<<0, 1>>)
               ELSE IF S.kind = "poly" THEN BdP(S, x, d)
               ELSE IF S.k[1] # S.k[2] THEN Unknown
               ELSE DR(<<ISqrt(S.u[1] * S.u[1] + S.u[2] * S.u[2]), 1>>, D!Fr((x - S.m[1] * d) * (x - S.m[1] * d) + S.m[2] * S.m[2] * d * d, d * d))
\* ---------------------------------------------------------------- observations of a pair
\* k = "none" with the distance, "is" with parts, or "?" (not modelled)
None0(d) == [k |-> "none", d |-> d, dim |-> 0, parts |-> <<>>, cs |-> <<0, 1>>]
Dunno == [k |-> "?", d |-> Unknown, dim |-> 0, parts |-> <<>>, cs |-> <<0, 1>>]
Is(dim, parts, cs) == [k |-> "is", d |-> Unknown, dim |-> dim, parts |-> parts, cs |-> cs]
Part(dim, m, b) == [dim |-> dim, m |-> m, b |-> b] \* magnitude, boundary distances of the ends
Zero1 == Len1(<<0, 1>>)
\* -- line
Dirs == << <<1,0>>, <<0,1>>, <<1,1>>, <<3,1>>, <<-1,2>>, <<1,-3>>, <<4,3>>, <<-5,1>>, <<10,1>>, <<-12,5>>, <<2,3>>, <<7,-1>> >>
LineShape(k) == LET t == <<Rnd(k + 3, 9) - 4, Rnd(k + 4, 9) - 4>> IN
                IF Rnd(k, 20) < 12 THEN MkPoly(1 + Rnd(k + 1, NPoly), Rnd(k + 2, 4), Rnd(k + 5, 2), t)
                ELSE MkDisk(IF Rnd(k + 6, 4) = 0 THEN 1 + Rnd(k + 1, NDisk) ELSE PickSeq(<<1, 3, 7, 9, 1, 3, 15>>, Rnd(k + 1, 700)), t)
LineScene == LET d0 == Rnd(90, 12) IN [i \in 1..4 |-> [s |-> LineShape(20 * i), d |-> Dirs[1 + ((d0 + (1 + Rnd(91, 2)) * i) % 12)]]]
LineObs(a, b) ==
  LET ia == OnAxis(a.s) ib == OnAxis(b.s) IN
  IF ~Comparable(ia, ib) THEN Dunno ELSE
  LET is == Common(ia, ib) IN
  IF is.n = 0 THEN [None0(Unknown) EXCEPT !.d = Unknown]
  ELSE IF ~IsRat(is.lo) \/ ~IsRat(is.hi) THEN Dunno
  ELSE LET w == a.d[1] * b.d[1] + a.d[2] * b.d[2] na == a.d[1]*a.d[1] + a.d[2]*a.d[2] nb == b.d[1]*b.d[1] + b.d[2]*b.d[2]
           B(q) == <<Bd(a.s, q.p, q.d), Bd(b.s, q.p, q.d)>>
           len == RSub(<<is.hi.p, is.hi.d>>, <<is.lo.p, is.lo.d>>) IN
       IF len[1] = 0 THEN Is(0, <<Part(0, Zero1, B(is.lo))>>, D!Fr(w * w, na * nb))
       ELSE Is(1, <<Part(1, Len1(len), B(is.lo) \o B(is.hi))>>, D!Fr(w * w, na * nb))
\* -- space
SpaceScene == [i \in 1..4 |-> [c |-> D!PolyAt(<<Rnd(30*i, 13) - 6, Rnd(30*i + 1, 13) - 6, Rnd(30*i + 2, 13) - 6>>, 30*i + 5)]]
Coplanar(a, b) == LET n == D!Normal(a.c) IN \A i \in 1..Len(b.c) : D!Dot(D!V(a.c[1], b.c[i]), n) = 0
SpaceObs(a, b) == IF Coplanar(a, b) THEN Dunno ELSE LET d == D!Dist2(D!Face(a.c), D!Face(b.c)) IN IF d[1] = 0 THEN Dunno ELSE None0(DSq(d))
\* -- par: circles [o, h, r] with offsets along a Pythagorean direction
ParScene == [i \in 1..4 |-> [o |-> 5 * (Rnd(20*i, 13) - 6), h |-> 3 * i - 7 + Rnd(20*i + 1, 2), r |-> 1 + Rnd(20*i + 2, 5), z |-> Rnd(10, 2)]]
ParObs(a, b) == LET l == Max2(0, Abs(a.o - b.o) - a.r - b.r) IN None0(DSq(<<(a.h - b.h) * (a.h - b.h) + l * l, 1>>))
\* -- cyl: the cylinder of radius 5 and height H at the origin, and planar shapes
H == 4 + Rnd(5, 8)
CylEnt(k) ==
  LET t == Rnd(k, 14) a == PickSeq(<<0, 3, 4, -3, -4>>, Rnd(k + 1, 500))
      y0 == -9 + PickSeq(<<0, 1, 2, 3, 6, 7, 8, 10>>, Rnd(k + 2, 800)) y1 == y0 + 2 + Rnd(k + 3, 12)
      z0 == Rnd(k + 4, H + 4) - 3 z1 == z0 + 1 + Rnd(k + 5, H)
      big == [x0 |-> -6 - Rnd(k + 2, 3), x1 |-> 6 + Rnd(k + 3, 3), y0 |-> -6 - Rnd(k + 6, 4), y1 |-> 6 + Rnd(k + 7, 4)]
      h == 1 + Rnd(k + 4, H - 1) IN
  CASE t \in 0..3 -> [t |-> "axial", a |-> a, y0 |-> y0, y1 |-> y1, z0 |-> z0, z1 |-> z1]
    [] t = 4 -> [t |-> "axial", a |-> 6 + Rnd(k + 1, 6), y0 |-> -1 - Rnd(k + 2, 5), y1 |-> 1 + Rnd(k + 3, 5), z0 |-> z0, z1 |-> z1]
    [] t \in 5..6 -> [t |-> "full", h |-> h, x0 |-> big.x0, x1 |-> big.x1, y0 |-> big.y0, y1 |-> big.y1]
    [] t = 7 -> [t |-> "full", h |-> H + 1 + Rnd(k + 4, 5), x0 |-> big.x0, x1 |-> big.x1, y0 |-> big.y0, y1 |-> big.y1]
    [] t = 8 -> [t |-> "disk", h |-> h, r |-> 6 + Rnd(k + 1, 6)]
    [] t \in 9..12 -> \* the sloping plane z = c + m y, ending at y1 inside the cylinder, or reaching around it
         LET m == PickSeq(<<1, -1, 2, -2>>, Rnd(k + 1, 400)) f == Rnd(k + 8, 3) = 0
             ye == IF f THEN 6 + Rnd(k + 3, 4) ELSE PickSeq(<<-4, -3, 0, 3, 4>>, Rnd(k + 8, 1500))
             rise == IF f THEN 10 * Abs(m) ELSE Abs(m) * (ye + 5)
             low == 1 + Rnd(k + 9, Max2(1, H - rise - 1)) IN \* the lowest point of the curve
         [t |-> "slope", m |-> m, c |-> IF m > 0 THEN low + 5 * m ELSE low - m * (IF f THEN 5 ELSE ye), x0 |-> big.x0, x1 |-> big.x1, y0 |-> big.y0, y1 |-> ye]
    [] OTHER -> [t |-> "cut", h |-> h, x0 |-> big.x0, x1 |-> a, y0 |-> big.y0, y1 |-> big.y1]
CylScene == [i \in 1..4 |-> IF i = 1 THEN [t |-> "cylinder", H |-> H] ELSE CylEnt(20 * i)]
MinI(S) == CHOOSE x \in S : \A y \in S : x <= y
DI(n) == DSq(<<n * n, 1>>)
CylObs(e) ==
  CASE e.t = "axial" ->
       LET s == IF Abs(e.a) = 0 THEN 5 ELSE IF Abs(e.a) = 3 THEN 4 ELSE 3
           lo == Max2(0, e.z0) hi == Min2(H, e.z1)
           Y == {y \in {s, -s} : e.y0 <= y /\ y <= e.y1}
           bd(y, z) == <<DI(MinI({y - e.y0, e.y1 - y, z - e.z0, e.z1 - z})), DI(Min2(z, H - z))>>
           pt(y) == Part(1, Len1(<<hi - lo, 1>>), bd(y, lo) \o bd(y, hi)) IN
       IF Abs(e.a) > 5 THEN IF lo <= hi THEN None0(DI(e.a - 5)) ELSE Dunno
       ELSE IF lo >= hi \/ (\E y \in {s, -s} : y = e.y0 \/ y = e.y1) THEN Dunno
       ELSE IF Y = {} THEN None0(Unknown)
       ELSE IF Cardinality(Y) = 2 THEN Is(1, <<pt(s), pt(-s)>>, <<e.a * e.a, 25>>)
       ELSE Is(1, <<pt(CHOOSE y \in Y : TRUE)>>, <<e.a * e.a, 25>>)
    [] e.t = "full" -> IF e.h > H THEN None0(DI(e.h - H))
                       ELSE Is(1, <<Part(1, [lo |-> <<31415, 1000>>, hi |-> <<31416, 1000>>],
                                         <<DI(MinI({-e.x0, e.x1, -e.y0, e.y1}) - 5), DI(Min2(e.h, H - e.h))>>)>>, <<0, 1>>)
    [] e.t = "slope" ->
       LET f == e.y1 > 5 q == 1 + e.m * e.m za == e.c - 5 * e.m zb == e.c + e.m * (IF f THEN 5 ELSE e.y1)
           gap(z) == Min2(z, H - z)
           l == CASE f -> 31415 [] e.y1 = 3 -> 22142 [] e.y1 = -3 -> 9272 [] e.y1 = 4 -> 24980 [] e.y1 = -4 -> 6434 [] OTHER -> 15707
           len == [lo |-> <<l, 1000>>, hi |-> <<l * (IF Abs(e.m) = 1 THEN 3 ELSE 5), 2000>>] IN
       IF gap(za) <= 0 \/ gap(zb) <= 0 THEN Dunno
       ELSE IF f THEN Is(1, <<Part(1, len, <<DSq(D!Fr(MinI({(MinI({-e.x0, e.x1}) - 5) * (MinI({-e.x0, e.x1}) - 5), q * (MinI({-e.y0, e.y1}) - 5) * (MinI({-e.y0, e.y1}) - 5)}), 1)),
                                             DI(Min2(gap(za), gap(zb)))>>)>>, <<q - 1, q>>)
       \* the ends lie on an edge of the shape; the cylinder is left by the gap of the ends, or of the whole arc
       ELSE Is(1, <<Part(1, len, <<DI(0), [r |-> <<-2, 1>>, s |-> <<Min2(gap(za), gap(zb)), gap(zb)>>]>>)>>, <<q - 1, q>>)
    [] e.t = "disk" -> Is(1, <<Part(1, [lo |-> <<31415, 1000>>, hi |-> <<31416, 1000>>], <<DI(e.r - 5), DI(Min2(e.h, H - e.h))>>)>>, <<0, 1>>)
    [] OTHER -> LET l == CASE e.x1 = 3 -> 22142 [] e.x1 = -3 -> 9272 [] e.x1 = 4 -> 24980 [] e.x1 = -4 -> 6434 [] OTHER -> 15707 IN
                Is(1, <<Part(1, [lo |-> <<l, 1000>>, hi |-> <<l + 2, 1000>>], <<DI(0), DI(Min2(e.h, H - e.h))>>)>>, <<0, 1>>)
\* -- flat: rectangles in one plane
FlatScene == [i \in 1..4 |-> LET x == Rnd(20*i, 12) - 6 y == Rnd(20*i + 1, 12) - 6 IN [x0 |-> x, y0 |-> y, x1 |-> x + 1 + Rnd(20*i + 2, 7), y1 |-> y + 1 + Rnd(20*i + 3, 7)]]
FlatObs(a, b) ==
  LET x0 == Max2(a.x0, b.x0) x1 == Min2(a.x1, b.x1) y0 == Max2(a.y0, b.y0) y1 == Min2(a.y1, b.y1)
      gx == Max2(0, x0 - x1) gy == Max2(0, y0 - y1) IN
  IF gx + gy > 0 THEN None0(DSq(<<gx * gx + gy * gy, 1>>))
  ELSE IF x0 < x1 /\ y0 < y1 THEN Is(2, <<Part(2, Len1(<<(x1 - x0) * (y1 - y0), 1>>), <<Unknown>>)>>, <<1, 1>>)
  ELSE Dunno \* touching: edges and points of the two outlines
\* ---------------------------------------------------------------- the scene
Scene == CASE Mode = "line" -> LineScene [] Mode = "space" -> SpaceScene [] Mode = "par" -> ParScene [] Mode = "cyl" -> CylScene [] OTHER -> FlatScene
ObsOf(s, i, j) == IF i = j THEN Dunno ELSE
   CASE Mode = "line" -> LineObs(s[i], s[j]) [] Mode = "space" -> SpaceObs(s[i], s[j]) [] Mode = "par" -> ParObs(s[i], s[j])
     [] Mode = "cyl" -> IF i = 1 THEN CylObs(s[j]) ELSE IF j = 1 THEN CylObs(s[i]) ELSE Dunno
     [] OTHER -> FlatObs(s[i], s[j])
\* ---------------------------------------------------------------- the verdict
Off == <<>>
Default == [dist |-> Off, ang |-> Off, mag |-> Off, bd |-> Off, equi |-> FALSE, eps |-> FALSE]
BdOK(x, t) == IF x.r = <<-2, 1>> THEN (IF GE(DI(x.s[2]), t) = "F" THEN "F" ELSE IF GE(DI(x.s[1]), t) = "T" THEN "T" ELSE "?")
              ELSE IF x = DSq(<<0, 1>>) THEN "T" ELSE GE(x, t)
Verdict(s, o) ==
  IF s.dist = Off /\ s.ang = Off /\ s.mag = Off /\ s.bd = Off THEN (IF o.k = "is" /\ o.dim = 2 THEN "?" ELSE "T")
  ELSE IF o.k = "?" THEN "?"
  ELSE IF o.k = "none" THEN (IF s.dist = Off THEN "T" ELSE GE(o.d, s.dist))
  ELSE LET P == {o.parts[k] : k \in 1..Len(o.parts)}
           eq == IF o.dim = 2 /\ ~s.equi THEN {"F"} ELSE {}
           mg == IF s.mag = Off THEN {} ELSE {IF p.dim = 0 THEN "T" ELSE MagGE(p.m, s.mag) : p \in P}
           an == IF s.ang = Off THEN {} ELSE {AngGE(o.cs, s.ang)}
           bd == IF s.bd = Off THEN {} ELSE UNION {{BdOK(p.b[k], s.bd) : k \in 1..Len(p.b)} : p \in P}
       IN All(eq \cup mg \cup an \cup bd)
ListVerdict(s, I, J) == All({Verdict(s, scene.obs[i][j]) : i \in I, j \in J})
\* ---------------------------------------------------------------- operations
Log(r) == log' = Append(log, r) /\ UNCHANGED <<seed, scene>>
SetC(f, t) == st' = [st EXCEPT ![f] = t] /\ Log([op |-> "set", f |-> f, t |-> t])
Neglect(f) == st' = [st EXCEPT ![f] = Off] /\ Log([op |-> "neglect", f |-> f])
Equi(b) == st' = [st EXCEPT !.equi = b] /\ Log([op |-> "equi", b |-> b])
Eps(b) == st' = [st EXCEPT !.eps = b] /\ Log([op |-> "eps", b |-> b])
SeqOf(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
\* verdicts of the pairs too, for diagnosis
Eval(I, J) == UNCHANGED st /\ Log([op |-> "eval", I |-> SeqOf(I), J |-> SeqOf(J), want |-> ListVerdict(st, I, J), ang |-> st.ang # Off,
                                   risk |-> \E i \in I, j \in J : scene.obs[i][j].dim = 2 /\ st.bd # Off])
Cos == << <<1, 200>>, <<1, 9>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<9, 10>>, <<49, 50>>, <<1, 3>> >>
Step == LET k == 40 * Len(log) + 500
            o == Rnd(k, IF Len(log) < 2 THEN 6 ELSE 20)
            f == PickSeq(<<"dist", "ang", "mag", "bd">>, Rnd(k + 1, 4000))
            small == <<1 + 2 * Rnd(k + 2, 20), 7>>
            t == IF f = "ang" THEN PickSeq(Cos, Rnd(k + 2, 8000)) ELSE IF f = "dist" /\ Mode \in {"space", "par", "flat"} THEN <<1 + 2 * Rnd(k + 2, 40), 7>>
                 ELSE IF f = "bd" THEN <<1 + 2 * Rnd(k + 2, 10), 14>> ELSE IF f = "mag" /\ Mode \in {"cyl", "flat"} THEN <<1 + 2 * Rnd(k + 2, 110), 7>> ELSE small
            i == IF Mode = "cyl" THEN 1 ELSE 1 + Rnd(k + 3, 4)
            j == 1 + ((i + Rnd(k + 4, 3)) % 4)
            S == {1 + ((i + q) % 4) : q \in {Rnd(k + 4, 3), Rnd(k + 5, 3), Rnd(k + 6, 3)}}
            I2 == IF Rnd(k + 7, 2) = 0 THEN {1, 2} ELSE {1, 3} J2 == {1, 2, 3, 4} \ I2
        IN CASE o \in 0..4 -> SetC(f, t)
             [] o \in 5..6 -> Neglect(f)
             [] o = 7 -> Equi(Rnd(k + 1, 3) > 0)
             [] o = 8 -> Eps(Rnd(k + 1, 2) = 0)
             [] o \in 9..15 -> Eval({i}, {j})
             [] o \in 16..18 -> Eval({i}, S)
             [] OTHER -> IF Mode = "cyl" THEN Eval({1}, {2, 3, 4}) ELSE Eval(I2, J2)
Init == /\ seed \in Lo..Hi /\ st = Default /\ log = <<>>
        /\ scene = [e |-> Scene, obs |-> [i \in 1..4 |-> [j \in 1..4 |-> ObsOf(Scene, i, j)]]]
Next == Len(log) < MaxLen /\ Step
\* ---------------------------------------------------------------- properties of the specification
Symmetric == \A i, j \in 1..4 : i < j => Verdict(st, scene.obs[i][j]) = Verdict(st, scene.obs[j][i])
\* neglecting a constraint never makes a pair inadmissible, and an unset object accepts everything
Relax == \A i, j \in 1..4, f \in {"dist", "ang", "mag", "bd"} : i < j /\ Verdict(st, scene.obs[i][j]) = "T"
            => Verdict([st EXCEPT ![f] = Off], scene.obs[i][j]) \in {"T", "?"}
Meta == Symmetric /\ Relax
Emit == Len(log) = MaxLen => PrintT(ToJson([scene |-> scene.e, hist |-> log, mode |-> Mode]))
=============================================================================
