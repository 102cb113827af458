------------------------------ MODULE Builder ------------------------------
(* P17.  Histories of network builders: insertions, refusals, settings,       *)
(* builds, access to the network built last, clearing.                        *)
EXTENDS Networks
CONSTANTS MaxLen, Seeds
VARIABLES doms,   \* sub-domains inserted: [id, box, conf]
          ents,   \* entities inserted: [id, no, shape, gap]
          union,  \* confinement to the union of the sub-domains
          eps,    \* tolerance set: [set, lo, hi] (tenths of decades)
          built,  \* result of the last build, or <<>>
          epoch, seed, log
vars == <<doms, ents, union, eps, built, epoch, seed, log>>
Rnd(k, n) == R(seed, k, n)
Log(r) == log' = Append(log, r) /\ UNCHANGED seed
Same == UNCHANGED <<doms, ents, union, eps, built, epoch>>
\* ---- the input of an epoch (between clears)
E0 == 1000 * (epoch + 1)
Contained == Rnd(1, 2) = 0
EntDim == 1 + (IF Rnd(E0 + 1, 3) = 0 THEN 0 ELSE 1)
Sc == IF Rnd(E0 + 2, 2) = 0 THEN 2 ELSE 5   \* log10 of the unit of length
Ids == <<1, 7, 3, 4>>
Slabs == LET ax == 1 + Rnd(E0 + 3, 3) cuts == PickSeq(<< << <<0, 2>>, <<2, 4>> >>, << <<0, 1>>, <<1, 3>>, <<3, 4>> >>, << <<0, 1>>, <<2, 4>> >>, << <<1, 3>> >> >>, Rnd(E0 + 4, 100)) IN
  [j \in 1..Len(cuts) |-> Box([i \in 1..3 |-> IF i = ax THEN 2 * cuts[j][1] ELSE 0], [i \in 1..3 |-> IF i = ax THEN 2 * cuts[j][2] ELSE 6])]
Tiles2 == LET a == 1 + Rnd(E0 + 4, 3) IN << Box(<<0, 2, 2>>, <<2 * a, 8, 2>>), Box(<<2 * a, 0, 2>>, <<8, 6, 2>>) >>
PlanBoxes == IF EntDim = 2 THEN Slabs ELSE Tiles2
Plan == [j \in 1..Len(PlanBoxes) |-> [id |-> Ids[((j + Rnd(E0 + 5, 4)) % 4) + 1], box |-> PlanBoxes[j], conf |-> Rnd(E0 + 5 + j, 2) = 0]]
Span(k) == LET l == Rnd(k, 4) w == 1 + Rnd(k + 1, 4) IN <<2 * l, 2 * (IF l + w > 4 THEN 4 ELSE l + w)>>
Rect(k) == LET ax == 1 + Rnd(k, 3) p == 2 * Rnd(k + 1, 5) IN
  Box([i \in 1..3 |-> IF i = ax THEN p ELSE Span(k + 2 * i)[1]], [i \in 1..3 |-> IF i = ax THEN p ELSE Span(k + 2 * i)[2]])
Line(k) == LET ax == 1 + Rnd(k, 2) p == [i \in 1..3 |-> IF i = 3 THEN 2 ELSE 2 * Rnd(k + 2 + i, 5)] IN
  Box([p EXCEPT ![ax] = Span(k + 6)[1]], [p EXCEPT ![ax] = Span(k + 6)[2]])
Shape(k) == IF EntDim = 2 THEN Rect(k) ELSE Line(k)
\* probes: a plate and a wall that ends a small gap above it (the lattice step 22-24 or 26-28 is as wide as the gap)
Plate(g) == LET z == IF g = 1 THEN 22 ELSE 26 x == 20 IN IF EntDim = 2 THEN Box(<<x, 20, z>>, <<x + 4, 24, z>>) ELSE Box(<<x, 20, z>>, <<x + 4, 20, z>>)
Wall(g) == LET z == IF g = 1 THEN 24 ELSE 28 IN IF EntDim = 2 THEN Box(<<22, 20, z>>, <<22, 24, z + 2>>) ELSE Box(<<22, 20, z>>, <<22, 20, z + 2>>)
GapLevel(g) == IF g = 1 THEN 10 * Sc - 45 ELSE 10 * Sc - 80
\* ---- tolerance used by a build
Default == [set |-> FALSE, lo |-> 10 * Sc - 70, hi |-> 10 * Sc - 58]
Used == IF eps.set THEN eps ELSE Default
\* the wall meets the plate within the tolerance / that is decided clearly
Joins(g) == Used.lo > GapLevel(g)
Decided == Used.hi <= 10 * Sc - 30 /\ \A g \in {1, 2} : Used.lo - 4 > GapLevel(g) \/ Used.hi + 4 < GapLevel(g)
\* ---- refusals
Taken(id) == \E k \in 1..Len(doms) : doms[k].id = id
DomDim == EntDim + 1
RefuseEnt(d) == (ents # <<>> /\ d # EntDim) \/ (doms # <<>> /\ d >= DomDim)
RefuseDom(d, id) == (ents # <<>> /\ d <= EntDim) \/ (doms # <<>> /\ d # DomDim) \/ Taken(id)
RefuseBuild == ents = <<>> /\ (doms = <<>> \/ ~Contained)
\* ---- operations
NumberOf(id) == 1 + Cardinality({k \in 1..Len(ents) : ents[k].id = id})
AddEnts(new) == \* new: sequence of [id, shape, gap] inserted one after the other (without collisions of ids within it or of the same id in order)
  ents' = ents \o [k \in 1..Len(new) |-> [id |-> new[k].id, no |-> NumberOf(new[k].id) + Cardinality({j \in 1..(k - 1) : new[j].id = new[k].id}), shape |-> new[k].shape, gap |-> new[k].gap]]
AddEnt(id, s) == /\ AddEnts(<< [id |-> id, shape |-> s, gap |-> 0] >>) /\ UNCHANGED <<doms, union, eps, built, epoch>>
                 /\ Log([op |-> "ent", e |-> [id |-> id, shape |-> s], r |-> "ok"])
AddProbe(g, id) == LET new == << [id |-> id, shape |-> Plate(g), gap |-> 0], [id |-> id, shape |-> Wall(g), gap |-> g] >> IN
  IF \E k \in 1..Len(ents) : ents[k].gap = g THEN Same /\ Log([op |-> "built", r |-> built # <<>>])
  ELSE AddEnts(new) /\ UNCHANGED <<doms, union, eps, built, epoch>> /\ Log([op |-> "ents", es |-> new, r |-> "ok"])
AddDom(j) == LET d == Plan[j] IN
  IF Taken(d.id) THEN Same /\ Log([op |-> "dom", d |-> d, r |-> "refused"])
  ELSE doms' = Append(doms, d) /\ UNCHANGED <<ents, union, eps, built, epoch>> /\ Log([op |-> "dom", d |-> d, r |-> "ok"])
\* input of other dimension
Cube(d) == Box(<<0, 0, 0>>, [i \in 1..3 |-> IF i <= d THEN 4 ELSE 0])
BadEnt(d, id) == IF RefuseEnt(d) THEN Same /\ Log([op |-> "ent", e |-> [id |-> id, shape |-> Cube(d)], r |-> "refused"])
                 ELSE Same /\ Log([op |-> "built", r |-> built # <<>>])
BadDom(d, id) == IF RefuseDom(d, id) THEN Same /\ Log([op |-> "dom", d |-> [id |-> id, box |-> Cube(d), conf |-> Rnd(id, 2) = 0], r |-> "refused"])
                 ELSE Same /\ Log([op |-> "built", r |-> built # <<>>])
Sh(e) == [id |-> e.id, no |-> e.no, shape |-> e.shape]
OnSide(S) == Dim(S) = 2 /\ \E k \in 1..Len(doms) : \E i \in 1..3 : S.lo[i] = S.hi[i] /\ S.lo[i] \in {doms[k].box.lo[i], doms[k].box.hi[i]} 
Defined == /\ Decided
           /\ Contained \/ \A k \in 1..Len(ents) : OnSide(ents[k].shape) => DomOf(doms, ents[k].id) = {}
           /\ Clear(doms, union, [k \in 1..Len(ents) |-> Sh(ents[k])], Contained)
Result == LET es == [k \in 1..Len(ents) |-> Sh(ents[k])]
              parts == Parts(doms, union, es)
              reach == [k \in 1..Len(ents) |-> IF ents[k].gap > 0 /\ Joins(ents[k].gap)
                          THEN LET S == [ents[k].shape EXCEPT !.lo[3] = @ - 2] IN Part(S, CellsOf(S)) ELSE parts[k]] IN
  [scene |-> [contained |-> Contained, union |-> union, doms |-> doms, ents |-> es],
   frags |-> FragmentsOf(parts, reach \o Seams(doms, union, es) \o (IF Contained THEN AllSides(doms, Len(doms)) ELSE <<>>), es),
   domFrags |-> IF Contained THEN DomFragments(doms, union, es) ELSE <<>>]
SetUnion(u) == union' = u /\ UNCHANGED <<doms, ents, eps, built, epoch>> /\ Log([op |-> "union", v |-> u, r |-> "ok"])
SetEps(l) == eps' = [set |-> TRUE, lo |-> l, hi |-> l] /\ UNCHANGED <<doms, ents, union, built, epoch>> /\ Log([op |-> "eps", l |-> l, r |-> "ok"])
Build == IF Used.hi > 10 * Sc - 30 THEN SetEps(10 * Sc - 90) \* the tolerance set for former input is too coarse for anything
         ELSE IF RefuseBuild THEN /\ built' = <<>> /\ UNCHANGED <<doms, ents, union, eps, epoch>> /\ Log([op |-> "build", r |-> "refused"])
         ELSE /\ built' = << IF Defined THEN Result ELSE [undefined |-> TRUE] >>
              /\ UNCHANGED <<doms, ents, union, eps, epoch>> /\ Log([op |-> "build", r |-> "ok", res |-> built'[1]])
Access == Same /\ Log([op |-> "network", r |-> IF built = <<>> THEN "refused" ELSE "ok"])
IsBuilt == Same /\ Log([op |-> "built", r |-> built # <<>>])
SetDefault == /\ eps' = IF ents = <<>> /\ doms = <<>> THEN [set |-> TRUE, lo |-> -70, hi |-> -70] ELSE [Default EXCEPT !.set = TRUE]
              /\ UNCHANGED <<doms, ents, union, built, epoch>> /\ Log([op |-> "defeps", r |-> "ok"])
\* clearing forgets the input and the network, and keeps the settings
Clr == /\ doms' = <<>> /\ ents' = <<>> /\ built' = <<>> /\ epoch' = epoch + 1 /\ UNCHANGED <<union, eps>>
       /\ Log([op |-> "clear", r |-> "ok", epoch |-> epoch + 1, sc |-> IF R(seed, 1000 * (epoch + 2) + 2, 2) = 0 THEN 2 ELSE 5])
Nothing == Same /\ Log([op |-> "nothing", id |-> PickSeq(Ids, Rnd(17, 9)), r |-> "ok"])
Init == /\ doms = <<>> /\ ents = <<>> /\ union = TRUE /\ eps = [set |-> FALSE, lo |-> 0, hi |-> 0] /\ built = <<>> /\ epoch = 0 /\ log = <<>> /\ seed \in Seeds
IdFor(k) == IF Rnd(k, 5) = 0 THEN 9 ELSE IF ~Contained /\ Rnd(k + 1, 5) = 0 THEN 0 ELSE Plan[1 + Rnd(k + 2, Len(Plan))].id
RStep == LET k == 20 * Len(log) + 100000 o == Rnd(k, 24) IN
  IF Len(log) = MaxLen - 1 THEN Build
  ELSE CASE o \in 0..6 -> IF Len(ents) < 6 THEN LET c == [j \in 1..3 |-> Shape(k + 17 * j)] ok == {j \in 1..3 : Contained \/ EntDim = 1 \/ ~(\E p \in 1..Len(Plan) : \E i \in 1..3 : c[j].lo[i] = c[j].hi[i] /\ c[j].lo[i] \in {Plan[p].box.lo[i], Plan[p].box.hi[i]})} IN
                          IF ok = {} THEN AddEnt(9, c[1]) ELSE AddEnt(IdFor(k + 1), c[CHOOSE j \in ok : \A q \in ok : j <= q]) ELSE Access
         [] o \in 7..8 -> AddProbe(1 + Rnd(k + 1, 2), 9)
         [] o \in 9..11 -> AddDom(1 + Rnd(k + 1, Len(Plan)))
         [] o = 12 -> BadEnt(1 + Rnd(k + 1, 3), IdFor(k + 2))
         [] o = 13 -> BadDom(1 + Rnd(k + 1, 3), PickSeq(Ids, Rnd(k + 2, 9)))
         [] o \in 14..16 -> Build
         [] o = 17 -> Access
         [] o = 18 -> IsBuilt
         [] o = 19 -> SetUnion(Rnd(k + 1, 2) = 0)
         [] o = 20 -> SetEps(10 * Sc + PickSeq(<<-30, -90>>, Rnd(k + 1, 9)))
         [] o = 21 -> SetDefault
         [] o = 22 -> Clr
         [] OTHER -> Nothing
RNext == Len(log) < MaxLen /\ RStep
\* all short histories over a small input
Next == /\ Len(log) < MaxLen
        /\ \/ AddEnt(Plan[1].id, IF EntDim = 2 THEN Box(<<-2, 2, 4 + 2*Len(ents) >>, <<8, 6, 4 + 2*Len(ents)>>) ELSE Box(<<-2, 4 + 2*Len(ents), 2>>, <<10, 4 + 2*Len(ents), 2>>))
           \/ AddProbe(2, 9) \/ AddDom(1) \/ (Len(Plan) > 1 /\ AddDom(2)) \/ (\E d \in 1..3 : BadEnt(d, 9) \/ BadDom(d, 4)) \/ Build \/ Access \/ Clr \/ SetDefault \/ SetUnion(FALSE) \/ SetEps(10 * Sc - 90)
\* ---- properties of the specification
IsResult == built # <<>> /\ "frags" \in DOMAIN built[1]
Good == IsResult => LET s == built[1].scene IN
  /\ \A k \in 1..Len(s.ents) : Tiles({f.cells : f \in {f \in built[1].frags : k \in f.own}}, Parts(s.doms, s.union, s.ents)[k].cells)
  /\ s.contained = Contained
  /\ Len(s.ents) <= Len(ents) /\ Len(s.doms) <= Len(doms)
Consistent == /\ \A k \in 1..Len(ents) : Dim(ents[k].shape) = EntDim
              /\ \A j, k \in 1..Len(doms) : Dim(doms[k].box) = DomDim /\ (doms[j].id = doms[k].id => j = k)
              /\ \A k \in 1..Len(ents) : ents[k].no = Cardinality({j \in 1..k : ents[j].id = ents[k].id})
Emit == Len(log) = MaxLen => PrintT(ToJson([contained |-> Contained, sc |-> IF R(seed, 1002, 2) = 0 THEN 2 ELSE 5, hist |-> log]))
=============================================================================
