------------------------------ MODULE Shapes2D ------------------------------
(* Planar shapes in a local lattice frame: convex polygons with integer       *)
(* corners and elliptic disks with integer centre, integer major half axis    *)
(* vector u and minor half axis (kn/kd)*perp(u).                              *)
EXTENDS Num, Rand
Cross2(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Poly(cs) == [kind |-> "poly", c |-> cs]
Disk(cx, cy, ux, uy, kn, kd) == [kind |-> "disk", m |-> <<cx, cy>>, u |-> <<ux, uy>>, k |-> <<kn, kd>>]
NC(P) == Len(P.c)
Nxt(P, i) == IF i = NC(P) THEN 1 ELSE i + 1

PolyCatalog == <<
  << <<-2,-2>>, <<2,-2>>, <<2,2>>, <<-2,2>> >>,
  << <<-5,-1>>, <<5,-1>>, <<5,1>>, <<-5,1>> >>,
  << <<0,-3>>, <<3,0>>, <<0,3>>, <<-3,0>> >>,
  << <<-4,0>>, <<4,0>>, <<2,3>>, <<-1,3>> >>,
  << <<-3,-1>>, <<2,-3>>, <<4,1>>, <<-1,4>> >>,
  << <<-3,-2>>, <<1,-2>>, <<3,2>>, <<-1,2>> >>,
  << <<-12,-1>>, <<12,-2>>, <<12,2>>, <<-12,1>> >>,
  << <<-3,-2>>, <<4,-1>>, <<0,4>> >>,
  << <<0,0>>, <<5,0>>, <<0,4>> >>,
  << <<-3,-2>>, <<2,-3>>, <<5,0>>, <<1,4>>, <<-3,2>> >>,
  << <<-4,0>>, <<-2,-3>>, <<2,-3>>, <<4,0>>, <<2,3>>, <<-2,3>> >>,
  << <<-2,-4>>, <<2,-4>>, <<4,-2>>, <<4,2>>, <<2,4>>, <<-2,4>>, <<-4,2>>, <<-4,-2>> >>,
  << <<-1,-1>>, <<1,-1>>, <<1,1>>, <<-1,1>> >> >>
DiskCatalog == << <<5,0,1,1>>, <<5,0,3,5>>, <<3,4,1,1>>, <<3,4,1,2>>, <<10,0,1,2>>, <<2,1,1,2>>, <<13,0,1,1>>,
                  <<0,5,2,5>>, <<4,-3,1,1>>, <<4,-3,2,3>>, <<1,0,1,1>>, <<2,0,1,2>>, <<6,2,1,3>>, <<0,10,4,5>>,
                  <<8,-6,1,1>>, <<12,5,1,1>>, <<15,0,1,3>>, <<5,0,4,5>> >>
\* the symmetries of the lattice frame
Rot(p, r) == CASE r = 0 -> p [] r = 1 -> <<-p[2], p[1]>> [] r = 2 -> <<-p[1], -p[2]>> [] r = 3 -> <<p[2], -p[1]>>
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Refl(q, f) == IF f = 0 THEN q ELSE LET m == [i \in 1..Len(q) |-> <<q[i][2], q[i][1]>>] IN Rev(m)
MkPoly(b, r, f, t) == Poly([i \in 1..Len(PolyCatalog[b]) |->
                          LET p == Rot(Refl(PolyCatalog[b], f)[i], r) IN <<p[1] + t[1], p[2] + t[2]>>])
MkDisk(b, t) == LET d == DiskCatalog[b] IN Disk(t[1], t[2], d[1], d[2], d[3], d[4])
NPoly == Len(PolyCatalog)
NDisk == Len(DiskCatalog)
Convex(P) == \A i \in 1..NC(P) : Cross2(P.c[i], P.c[Nxt(P, i)], P.c[Nxt(P, Nxt(P, i))]) > 0
Bound(S) == IF S.kind = "poly" THEN CHOOSE m \in 0..200 : /\ \A i \in 1..NC(S) : Abs(S.c[i][1]) <= m /\ Abs(S.c[i][2]) <= m
                                                          /\ m = 0 \/ \E i \in 1..NC(S) : Abs(S.c[i][1]) = m \/ Abs(S.c[i][2]) = m
            ELSE Max2(Abs(S.m[1]), Abs(S.m[2])) + Abs(S.u[1]) + Abs(S.u[2])

\* membership of the rational point (x/d, y/d): 1 inside, 0 on the boundary, -1 outside
PolyWhere(P, x, y, d) ==
  LET side(i) == LET a == P.c[i] b == P.c[Nxt(P, i)] IN
                 Sgn((b[1] - a[1]) * (y - a[2] * d) - (b[2] - a[2]) * (x - a[1] * d))
  IN IF \E i \in 1..NC(P) : side(i) < 0 THEN -1
     ELSE IF \E i \in 1..NC(P) : side(i) = 0 THEN 0 ELSE 1
DiskWhere(S, x, y, d) ==
  LET X == x - S.m[1] * d  Y == y - S.m[2] * d
      uu == S.u[1] * S.u[1] + S.u[2] * S.u[2]
      a == X * S.u[1] + Y * S.u[2]
      b == Y * S.u[1] - X * S.u[2]
      \* a^2/uu^2 + (b*kd)^2/(kn^2 uu^2) <= d^2
  IN Sgn(S.k[1] * S.k[1] * uu * uu * d * d - S.k[1] * S.k[1] * a * a - S.k[2] * S.k[2] * b * b)
Where(S, x, y, d) == IF S.kind = "poly" THEN PolyWhere(S, x, y, d) ELSE DiskWhere(S, x, y, d)

\* ------- the part of a shape on the line y = 0: [n |-> 0] or [n |-> 1, lo, hi] (lo = hi: one point)
None == [n |-> 0]
PolyOnAxis(P) ==
  LET cross(i) == LET a == P.c[i] b == P.c[Nxt(P, i)] IN
                  IF a[2] = 0 THEN {<<a[1], 1>>}
                  ELSE IF Sgn(a[2]) * Sgn(b[2]) < 0
                       THEN {Rat(a[1] * b[2] - b[1] * a[2], b[2] - a[2])}
                       ELSE {}
      X == UNION {cross(i) : i \in 1..NC(P)}
  IN IF X = {} THEN None ELSE [n |-> 1, lo |-> QRat(RSetMin(X)), hi |-> QRat(RSetMax(X))]
DiskOnAxis(S) ==
  LET ux == S.u[1] uy == S.u[2] kn == S.k[1] kd == S.k[2]
      uu == ux * ux + uy * uy
      Y == -S.m[2]
      al == kn * kn * ux * ux + kd * kd * uy * uy
      be == Y * ux * uy * (kn * kn - kd * kd)
      ga == Y * Y * (kn * kn * uy * uy + kd * kd * ux * ux) - kn * kn * uu * uu
      \* al*X^2 + 2*be*X + ga = 0 with X = x - cx.
      \* disc = be^2 - al*ga simplifies to kn^2*uu^2*(al - kd^2*Y^2)
      di == al - kd * kd * Y * Y
      p == S.m[1] * al - be
      g == Gcd(Gcd(p, kn * uu), al)
      f == (kn * uu) \div g
  IN IF di < 0 THEN None
     ELSE [n |-> 1, lo |-> QNum(p \div g, IF di = 0 THEN 0 ELSE -1, f * f * di, al \div g),
                    hi |-> QNum(p \div g, IF di = 0 THEN 0 ELSE 1, f * f * di, al \div g)]
OnAxis(S) == IF S.kind = "poly" THEN PolyOnAxis(S) ELSE DiskOnAxis(S)
\* common part of two intervals of the axis
Common(a, b) == IF a.n = 0 \/ b.n = 0 THEN None
                ELSE LET lo == QMax(a.lo, b.lo) hi == QMin(a.hi, b.hi) IN
                     IF QCmp(lo, hi) > 0 THEN None ELSE [n |-> 1, lo |-> lo, hi |-> hi]
Comparable(a, b) == a.n = 0 \/ b.n = 0 \/
    (QComparable(a.lo, b.lo) /\ QComparable(a.lo, b.hi) /\ QComparable(a.hi, b.lo) /\ QComparable(a.hi, b.hi))
Kind(i) == IF i.n = 0 THEN "none" ELSE IF QCmp(i.lo, i.hi) = 0 THEN "point" ELSE "segment"
=============================================================================
