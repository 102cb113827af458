------------------------------ MODULE FaceCells ------------------------------
(* P08.  Two planar faces that need not be convex: combs, made of unit cells. *)
(* In doubled coordinates a pair of integers is a cell (both odd), the inside *)
(* of a unit edge (one odd) or a grid point (none odd), and a face is the set *)
(* of the pairs in the closure of its cells.  The common part of two faces is *)
(* then the common set of pairs.  "flat": both in one plane; "cross": in two  *)
(* planes that meet in the line y = 0.                                        *)
EXTENDS Shapes2D, FiniteSets, Json
CONSTANTS Lo, Hi, Mode
VARIABLES seed
Rnd(k, n) == R(seed, k, n)
Near == {<<a, b>> : a \in -1..1, b \in -1..1}
Cl(C) == {<<c[1] + d[1], c[2] + d[2]>> : c \in C, d \in Near}
\* ---------------------------------------------------------------- combs
\* teeth of heights 1..4 on a common base; turned, mirrored and moved
Teeth(k) == LET n == 1 + Rnd(k, 5) IN [i \in 1..n |-> IF Rnd(k + 1, 4) = 0 THEN 1 + Rnd(k + 2, 3) ELSE IF i % 2 = Rnd(k + 3, 2) THEN 1 + Rnd(k + 3 + i, 2) ELSE 2 + Rnd(k + 3 + i, 3)]
Raw(h) == LET n == Len(h) RECURSIVE F(_) F(i) == IF i = 0 THEN <<>> ELSE << <<2*i, 2*h[i]>>, <<2*(i - 1), 2*h[i]>> >> \o F(i - 1)
          IN << <<0, 0>>, <<2*n, 0>> >> \o F(n)
\* corners of the outline without repetitions and points on straight parts
Dedupe(c) == LET N == Len(c) P(i) == c[IF i = 1 THEN N ELSE i - 1] Q(i) == c[IF i = N THEN 1 ELSE i + 1]
                 Keep == {i \in 1..N : Cross2(P(i), c[i], Q(i)) # 0}
                 RECURSIVE F(_) F(i) == IF i > N THEN <<>> ELSE (IF i \in Keep THEN <<c[i]>> ELSE <<>>) \o F(i + 1) IN F(1)
DropSame(c) == LET N == Len(c) RECURSIVE F(_) F(i) == IF i > N THEN <<>> ELSE (IF c[i] = c[IF i = N THEN 1 ELSE i + 1] THEN <<>> ELSE <<c[i]>>) \o F(i + 1) IN F(1)
Trans(k, p) == LET q == IF Rnd(k + 1, 2) = 0 THEN p ELSE <<-p[1], p[2]>> r == Rot(q, Rnd(k, 4)) IN <<r[1] + 2 * (Rnd(k + 2, 7) - 3), r[2] + 2 * (Rnd(k + 3, 7) - 3)>>
Comb(k) == LET h == Teeth(k) c == Dedupe(DropSame(Raw(h))) IN
   [c |-> [i \in 1..Len(c) |-> Trans(k + 20, c[i])], cells |-> UNION {{Trans(k + 20, <<2*i - 1, 2*j - 1>>) : j \in 1..h[i]} : i \in 1..Len(h)}]
A == Comb(100)
B == Comb(200)
Odd(x) == x % 2 = 1
IsCell(p) == Odd(p[1]) /\ Odd(p[2])
IsEdge(p) == Odd(p[1]) # Odd(p[2])
EdgeCl(S) == UNION {IF Odd(p[1]) THEN {<<p[1] - 1, p[2]>>, <<p[1] + 1, p[2]>>} ELSE {<<p[1], p[2] - 1>>, <<p[1], p[2] + 1>>} : p \in S}
Parts(X) == LET F == {p \in X : IsCell(p)} E == {p \in X : IsEdge(p)} \ Cl(F) V == {p \in X : ~IsCell(p) /\ ~IsEdge(p)} \ (Cl(F) \cup EdgeCl(E)) IN [faces |-> F, edges |-> E, points |-> V]
Shared == IF Mode = "flat" THEN Cl(A.cells) \cap Cl(B.cells) ELSE {p \in Cl(A.cells) \cap Cl(B.cells) : p[2] = 0}
Case == [fc |-> Mode, A |-> A.c, B |-> B.c, common |-> Parts(Shared)]
\* ---------------------------------------------------------------- properties of the specification
Area2(c) == LET N == Len(c) RECURSIVE F(_) F(i) == IF i > N THEN 0 ELSE c[i][1] * c[IF i = N THEN 1 ELSE i + 1][2] - c[i][2] * c[IF i = N THEN 1 ELSE i + 1][1] + F(i + 1) IN F(1)
Meta == LET P == Case.common IN
   /\ Abs(Area2(A.c)) = 8 * Cardinality(A.cells) /\ Abs(Area2(B.c)) = 8 * Cardinality(B.cells)
   /\ \A c \in A.cells \cup B.cells : IsCell(c)
   \* the parts cover the common set and do not overlap
   /\ Cl(P.faces) \cup P.edges \cup EdgeCl(P.edges) \cup P.points = Shared
   /\ P.edges \cap Cl(P.faces) = {} /\ P.points \cap (Cl(P.faces) \cup EdgeCl(P.edges)) = {}
   /\ Mode = "cross" => P.faces = {}
Init == seed \in Lo..(Lo + 63)
Next == seed + 64 <= Hi /\ seed' = seed + 64
Emit == PrintT(ToJson(Case))
=============================================================================
