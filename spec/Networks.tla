------------------------------ MODULE Networks ------------------------------
(* P14 - P18.  Networks of entities embedded in sub-domains.  All shapes are  *)
(* unions of unit cells of a lattice (disks: of the parts of cells within the *)
(* disk).  Coordinates are doubled: a cell is a point that is odd in the       *)
(* directions it extends in and even in the others.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rand
\* ---- shapes: boxes of any dimension and circular disks normal to an axis
Box(l, h) == [kind |-> "box", lo |-> l, hi |-> h, r |-> 0]
Disk(c, ax, r) == [kind |-> "disk", r |-> r, lo |-> [i \in 1..3 |-> IF i = ax THEN c[i] ELSE c[i] - r], hi |-> [i \in 1..3 |-> IF i = ax THEN c[i] ELSE c[i] + r]]
Dim(S) == Cardinality({i \in 1..3 : S.lo[i] < S.hi[i]})
Along(S, i) == IF S.lo[i] = S.hi[i] THEN {S.lo[i]} ELSE {x \in S.lo[i]..S.hi[i] : x % 2 = 1}
Abs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x
\* squared distance of the points of the unit cell c to the centre of a disk: smallest and largest
Near(x) == IF Abs(x) <= 1 /\ x % 2 = 1 THEN 0 ELSE IF x % 2 = 1 THEN Abs(x) - 1 ELSE Abs(x)
Far(x) == IF x % 2 = 1 THEN Abs(x) + 1 ELSE Abs(x)
Mid(S, i) == (S.lo[i] + S.hi[i]) \div 2
NearD(S, c) == Sq(Near(c[1] - Mid(S, 1))) + Sq(Near(c[2] - Mid(S, 2))) + Sq(Near(c[3] - Mid(S, 3)))
FarD(S, c) == Sq(Far(c[1] - Mid(S, 1))) + Sq(Far(c[2] - Mid(S, 2))) + Sq(Far(c[3] - Mid(S, 3)))
\* the interior of the unit cell c meets that of the shape / the cell is within the shape
Meets(S, c) == S.kind = "box" \/ NearD(S, c) < Sq(S.r)
Within(S, c) == S.kind = "box" \/ FarD(S, c) <= Sq(S.r)
CellsOf(S) == {c \in Along(S, 1) \X Along(S, 2) \X Along(S, 3) : Meets(S, c)}
InBox(S, c) == \A i \in 1..3 : S.lo[i] <= c[i] /\ c[i] <= S.hi[i]
\* the closure of the cell c contains the (centre of the) cell g
InCell(c, g) == \A i \in 1..3 : IF c[i] % 2 = 1 THEN Abs(c[i] - g[i]) <= 1 ELSE c[i] = g[i]
\* ---- parts: a shape reduced to some of its cells
Part(S, C) == [shape |-> S, cells |-> C]
\* cells of P around g
Around(P, g) == {c \in ({g[1] - 1, g[1], g[1] + 1} \X {g[2] - 1, g[2], g[2] + 1} \X {g[3] - 1, g[3], g[3] + 1}) : c \in P.cells /\ InCell(c, g)}
\* an entity that stops short of the end plane of its extent in direction gap does not reach it
Covers(P, g) == Around(P, g) # {} /\ Within(P.shape, g)
\* the facet g between the cells a and b of a part is cut by the part P
Cuts(P, a, b, g) == Covers(P, g) /\ ~({a, b} \subseteq P.cells)
Between(a, b) == [i \in 1..3 |-> (a[i] + b[i]) \div 2]
Neighbours(c) == UNION {{[c EXCEPT ![i] = @ + 2], [c EXCEPT ![i] = @ - 2]} : i \in {i \in 1..3 : c[i] % 2 = 1}}
\* the pieces of the part P under the cuts of the parts in Q (a sequence)
Linked(P, Q, a, b) == LET g == Between(a, b) IN Meets(P.shape, g) /\ \A k \in 1..Len(Q) : ~Cuts(Q[k], a, b, g)
RECURSIVE Flood(_, _, _, _)
Flood(P, Q, seen, front) == IF front = {} THEN seen ELSE
  LET new == {b \in (UNION {Neighbours(a) : a \in front}) \cap (P.cells \ seen) : \E a \in front : b \in Neighbours(a) /\ Linked(P, Q, a, b)} IN Flood(P, Q, seen \cup new, new)
RECURSIVE Pieces(_, _, _)
Pieces(P, Q, C) == IF C = {} THEN {} ELSE LET a == CHOOSE x \in C : TRUE S == Flood(P, Q, {a}, {a}) IN {S} \cup Pieces(P, Q, C \ S)
\* ---- sub-domains: [id, box, conf]; entities: [id, no, shape]
DomOf(doms, id) == {k \in 1..Len(doms) : doms[k].id = id}
\* the part of the entity that is kept (confinement)
Kept(doms, union, e) ==
  IF DomOf(doms, e.id) = {} THEN CellsOf(e.shape)
  ELSE LET d == doms[CHOOSE k \in DomOf(doms, e.id) : TRUE] IN
       IF d.conf THEN {c \in CellsOf(e.shape) : InBox(d.box, c)}
       ELSE IF union THEN {c \in CellsOf(e.shape) : \E k \in 1..Len(doms) : InBox(doms[k].box, c)}
       ELSE CellsOf(e.shape)
Parts(doms, union, ents) == [k \in 1..Len(ents) |-> Part(ents[k].shape, Kept(doms, union, ents[k]))]
\* the sides of a sub-domain
Sides(b) == IF Dim(b) = 3
            THEN [k \in 1..6 |-> LET i == 1 + ((k - 1) \div 2) S == IF k % 2 = 0 THEN Box([b.lo EXCEPT ![i] = b.hi[i]], b.hi) ELSE Box(b.lo, [b.hi EXCEPT ![i] = b.lo[i]]) IN Part(S, CellsOf(S))]
            ELSE LET ex == {i \in 1..3 : b.lo[i] < b.hi[i]} i1 == CHOOSE i \in ex : \A j \in ex : i <= j i2 == CHOOSE i \in ex : \A j \in ex : i >= j IN
                 [k \in 1..4 |-> LET i == IF k <= 2 THEN i1 ELSE i2 S == IF k % 2 = 0 THEN Box([b.lo EXCEPT ![i] = b.hi[i]], b.hi) ELSE Box(b.lo, [b.hi EXCEPT ![i] = b.lo[i]]) IN Part(S, CellsOf(S))]
RECURSIVE AllSides(_, _)
AllSides(doms, n) == IF n = 0 THEN <<>> ELSE AllSides(doms, n - 1) \o Sides(doms[n].box)
\* the fragments: every set of cells with the entities it is part of
FragmentsOf(parts, cutters, ents) ==
  LET pcs == [k \in 1..Len(ents) |-> Pieces(parts[k], cutters, parts[k].cells)] IN
  {[cells |-> S, own |-> {k \in 1..Len(ents) : S \in pcs[k]}] : S \in UNION {pcs[k] : k \in 1..Len(ents)}}
\* The union of faces keeps the lines at which they meet: edges confined to it are divided there.
Evens(S) == {x \in ((S.lo[1]..S.hi[1]) \X (S.lo[2]..S.hi[2]) \X (S.lo[3]..S.hi[3])) : \A i \in 1..3 : x[i] % 2 = 0}
UnionConfined(doms, union, e) == union /\ DomOf(doms, e.id) # {} /\ ~doms[CHOOSE k \in DomOf(doms, e.id) : TRUE].conf
OnCrossSide(d, S, x) == InBox(d.box, x) /\ \E i \in 1..3 : S.lo[i] < S.hi[i] /\ x[i] \in {d.box.lo[i], d.box.hi[i]}
SeamPoints(doms, union, ents) == UNION {IF Dim(ents[k].shape) = 1 /\ UnionConfined(doms, union, ents[k])
  THEN {x \in Evens(ents[k].shape) : Cardinality({c \in Kept(doms, union, ents[k]) : InCell(c, x)}) = 2 /\ \E j \in 1..Len(doms) : OnCrossSide(doms[j], ents[k].shape, x)} ELSE {} : k \in 1..Len(ents)}
RECURSIVE AsSeq(_)
AsSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<Part(Box(x, x), {x})>> \o AsSeq(X \ {x})
Seams(doms, union, ents) == AsSeq(SeamPoints(doms, union, ents))
\* Result of building the network; the sub-domains only take part if the network is contained
Fragments(doms, union, ents, contained) ==
  LET parts == Parts(doms, union, ents) IN
  FragmentsOf(parts, parts \o Seams(doms, union, ents) \o (IF contained THEN AllSides(doms, Len(doms)) ELSE <<>>), ents)
\* Confining a network computes the cuts of all its entities first: an entity in the plane of a side of a
\* sub-domain may also be cut by parts of others that touch it from outside and are removed. Clear scenes
\* are those in which this makes no difference.
Clear(doms, union, ents, contained) ==
  LET parts == Parts(doms, union, ents) whole == [k \in 1..Len(ents) |-> Part(ents[k].shape, CellsOf(ents[k].shape))] sides == Seams(doms, union, ents) \o (IF contained THEN AllSides(doms, Len(doms)) ELSE <<>>) IN
  doms = <<>> \/ FragmentsOf(parts, parts \o sides, ents) = FragmentsOf(parts, parts \o sides \o whole, ents)
DomFragments(doms, union, ents) ==
  LET parts == Parts(doms, union, ents) IN
  [k \in 1..Len(doms) |-> Pieces(Part(doms[k].box, CellsOf(doms[k].box)), parts, CellsOf(doms[k].box))]
\* ---- properties of the result
Tiles(F, C) == UNION F = C /\ \A S, T \in F : S = T \/ S \cap T = {}
GoodResult(doms, union, ents, contained) ==
  LET F == Fragments(doms, union, ents, contained) parts == Parts(doms, union, ents) IN
  /\ \A k \in 1..Len(ents) : Tiles({f.cells : f \in {f \in F : k \in f.own}}, parts[k].cells)
  \* pieces of different entities coincide or have no cell in common
  /\ \A f, g \in F : f.cells = g.cells \/ f.cells \cap g.cells = {}
  \* nobody crosses a fragment: two parts never meet in the interior of a fragment
  /\ \A f \in F, k \in 1..Len(ents) : parts[k].shape.kind = "box" => (f.cells \subseteq parts[k].cells \/ f.cells \cap parts[k].cells = {})
  /\ contained => \A k \in 1..Len(doms) : Tiles(DomFragments(doms, union, ents)[k], CellsOf(doms[k].box))
=============================================================================
