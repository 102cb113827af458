----------------------------- MODULE NetScenes -----------------------------
(* P14, P15, P16, P18.  Random scenes for the networks of module Networks.   *)
EXTENDS Networks
CONSTANTS Lo, Hi, Mode
VARIABLES seed
Rnd(k, n) == R(seed, k, n)
\* an interval of length 1..m on the lattice 0..n (doubled)
Span(k, n, m) == LET l == Rnd(k, (n + 1) \div 2 + (IF Rnd(k + 1, 3) = 0 THEN n \div 2 ELSE 0)) w == 1 + (m - 1 - (Rnd(k + 1, m * m) \div (1 + Rnd(k + 1, m)))) IN
  LET u == IF w < 1 THEN 1 ELSE w IN <<2 * l, 2 * (IF l + u > n THEN n ELSE l + u)>>
Rect(k, n) == LET ax == 1 + Rnd(k, 3) p == 2 * Rnd(k + 1, n + 1) s == [i \in 1..3 |-> Span(k + 1 + 2 * i, n, n)] IN
              Box([i \in 1..3 |-> IF i = ax THEN p ELSE s[i][1]], [i \in 1..3 |-> IF i = ax THEN p ELSE s[i][2]])
Line(k, n, flat) == LET ax == 1 + Rnd(k, IF flat THEN 2 ELSE 3) s == Span(k + 1, n, n) p == [i \in 1..3 |-> IF flat /\ i = 3 THEN 2 ELSE 2 * Rnd(k + 2 + i, n + 1)] IN
              Box([p EXCEPT ![ax] = s[1]], [p EXCEPT ![ax] = s[2]])
\* disks of radius 5 on a lattice 0..10
Dsk(k) == LET ax == 1 + Rnd(k, 3) IN Disk([i \in 1..3 |-> 2 * (IF i = ax THEN Rnd(k + 1, 9) + 1 ELSE Rnd(k + 1 + i, 5) + 3)], ax, 10)
BigRect(k) == LET ax == 1 + Rnd(k, 3) p == 2 * Rnd(k + 1, 11) s == [i \in 1..3 |-> Span(k + 1 + 2 * i, 10, 10)] IN
              Box([i \in 1..3 |-> IF i = ax THEN p ELSE s[i][1]], [i \in 1..3 |-> IF i = ax THEN p ELSE s[i][2]])
Overlap(S, T) == \A i \in 1..3 : S.lo[i] <= T.hi[i] /\ T.lo[i] <= S.hi[i]
AxisOf(S) == CHOOSE i \in 1..3 : S.lo[i] = S.hi[i]
\* curved outlines must not cut cells of others: disks do not overlap shapes in their plane and
\* the chords of crossing disks end on the lattice
Chord(S, T) == \A i \in 1..3 : i = AxisOf(S) \/ i # AxisOf(T) \/ Abs(T.lo[i] - Mid(S, i)) \in {0, 6, 8} \/ Abs(T.lo[i] - Mid(S, i)) > 10
\* shapes that touch the rim of a disk in a point (too flat to be located)
Tangent(S, T) == S.kind = "disk" /\ \E i \in 1..3 : S.lo[i] < S.hi[i] /\ {S.lo[i], S.hi[i]} \cap {T.lo[i], T.hi[i]} # {}
Compatible(S, T) == \/ S.kind = "box" /\ T.kind = "box"
                    \/ ~Overlap(S, T)
                    \/ AxisOf(S) # AxisOf(T) /\ ~Tangent(S, T) /\ ~Tangent(T, S) /\ (S.kind = "box" \/ T.kind = "box" \/ (Chord(S, T) /\ Chord(T, S)))
Square(S) == Box(S.lo, S.hi)
\* ---- sub-domains: slabs of a block
Cut3(k) == LET ax == 1 + Rnd(k, 3) a == Rnd(k + 1, 2) n == Rnd(k + 2, 3) IN
  \* up to three slabs along ax of the block [1,3]^2 x [0,4], possibly with a hole between them
  LET cuts == IF n = 0 THEN << <<a, 3>> >> ELSE IF n = 1 THEN << <<a, 2>>, <<2, 4>> >> ELSE << <<0, 1>>, <<1 + a, 3>>, <<3, 4>> >> 
      lo == [i \in 1..3 |-> IF i = ax THEN 0 ELSE 2 * Rnd(k + 3 + i, 2)] hi == [i \in 1..3 |-> IF i = ax THEN 0 ELSE 6 + 2 * Rnd(k + 6 + i, 2)] IN
  [j \in 1..Len(cuts) |-> Box([lo EXCEPT ![ax] = 2 * cuts[j][1]], [hi EXCEPT ![ax] = 2 * cuts[j][2]])]
\* quadrants of a block
Quad4(k) == LET ax == 1 + Rnd(k, 3) u == 1 + (ax % 3) v == 1 + (u % 3) m == [i \in 1..3 |-> 4]
                B(p, q) == Box([i \in 1..3 |-> IF i = ax THEN 0 ELSE IF i = u THEN p ELSE q], [i \in 1..3 |-> IF i = ax THEN 6 ELSE IF i = u THEN p + 4 ELSE q + 4]) IN
            IF Rnd(k + 1, 2) = 0 THEN <<B(0, 0), B(4, 0), B(4, 4)>> ELSE <<B(0, 0), B(4, 4)>>
Ids == <<1, 7, 3, 4>>
Blocks(k) == IF Rnd(k, 4) = 0 THEN Quad4(k + 1) ELSE Cut3(k + 1)
Doms(k, B) == [j \in 1..Len(B) |-> [id |-> Ids[((j + Rnd(k, 4)) % 4) + 1], box |-> B[j], conf |-> Rnd(k + 1 + j, 2) = 0]]
\* an entity in the plane of a side of a sub-domain is split where the sub-domains meet; such positions are left out of confined scenes
OnSide(S, doms) == Dim(S) = 2 /\ \E k \in 1..Len(doms) : \E i \in 1..3 : S.lo[i] = S.hi[i] /\ S.lo[i] \in {doms[k].box.lo[i], doms[k].box.hi[i]}
Number(es) == [k \in 1..Len(es) |-> [id |-> es[k].id, no |-> Cardinality({j \in 1..k : es[j].id = es[k].id}), shape |-> es[k].shape]]
RawScene ==
  CASE Mode = "plain" -> LET n == 1 + Rnd(5, 6) IN
         [contained |-> FALSE, union |-> TRUE, doms |-> <<>>, multi |-> Rnd(6, 2) = 0,
          ents |-> Number([k \in 1..n |-> [id |-> IF Rnd(6, 2) = 0 THEN Ids[1 + Rnd(900 + k, 3)] ELSE 0, shape |-> Rect(20 * k, 4)]])]
    [] Mode = "edges" -> LET n == 1 + Rnd(5, 7) IN
         [contained |-> FALSE, union |-> TRUE, doms |-> <<>>, multi |-> FALSE,
          ents |-> Number([k \in 1..n |-> [id |-> 0, shape |-> Line(20 * k, 4, Rnd(4, 3) # 0)]])]
    [] Mode = "flat" -> \* edges within faces
         LET n == 1 + Rnd(5, 5) a == 1 + Rnd(7, 3) B == << Box(<<0, 2, 2>>, <<2 * a, 8, 2>>), Box(<<2 * a, 0, 2>>, <<8, 6, 2>>) >> doms == Doms(8, B) IN
         [contained |-> Rnd(6, 3) # 0, union |-> Rnd(3, 3) # 0, doms |-> doms, multi |-> TRUE,
          ents |-> Number([k \in 1..n |-> [id |-> IF Rnd(900 + k, 5) = 0 THEN 9 ELSE doms[1 + Rnd(920 + k, 2)].id, shape |-> Line(20 * k, 4, TRUE)]])]
    [] Mode = "disks" ->
         LET n == 1 + Rnd(5, 4) raw == [k \in 1..n |-> IF Rnd(20 * k, 2) = 0 THEN Dsk(20 * k + 1) ELSE BigRect(20 * k + 1)]
             sq == [k \in 1..n |-> IF \E j \in 1..n : j # k /\ ~Compatible(raw[k], raw[j]) THEN Square(raw[k]) ELSE raw[k]]
             \* squares made of disks may overlap remaining disks in their plane
             ok == [k \in 1..n |-> IF \E j \in 1..n : j # k /\ ~Compatible(sq[k], sq[j]) THEN Square(sq[k]) ELSE sq[k]]
             B == IF Rnd(6, 3) = 0 THEN <<>> ELSE IF Rnd(7, 2) = 0 THEN << Box(<<0, 4, 2>>, <<12, 16, 16>>) >> ELSE << Box(<<0, 4, 2>>, <<12, 16, 16>>), Box(<<12, 2, 4>>, <<20, 18, 20>>) >> doms == Doms(8, B) IN
         [contained |-> Rnd(4, 2) = 0 /\ B # <<>>, union |-> Rnd(3, 3) # 0, doms |-> doms, multi |-> TRUE,
          ents |-> Number([k \in 1..n |-> [id |-> IF doms = <<>> \/ Rnd(900 + k, 6) = 0 THEN 9 ELSE doms[1 + Rnd(920 + k, Len(doms))].id, shape |-> ok[k]]])]
    [] OTHER -> \* confined, contained
         LET n == 1 + Rnd(5, 8) doms == Doms(300, Blocks(310)) IN
         [contained |-> Mode = "contained", union |-> Rnd(3, 3) # 0, doms |-> doms, multi |-> TRUE,
          ents |-> Number([k \in 1..n |-> [id |-> IF Rnd(900 + k, 6) = 0 THEN 9 ELSE doms[1 + Rnd(920 + k, Len(doms))].id, shape |-> Rect(20 * k, 4)]])]
Fine(s, k) == s.contained \/ ~OnSide(s.ents[k].shape, s.doms) \/ DomOf(s.doms, s.ents[k].id) = {}
RECURSIVE Sel(_, _)
Sel(s, n) == IF n = 0 THEN <<>> ELSE Sel(s, n - 1) \o (IF Fine(s, n) THEN <<[id |-> s.ents[n].id, shape |-> s.ents[n].shape]>> ELSE <<>>)
\* some entities are repeated, mostly as entities of another network
Repeats(q) == [k \in 1..Len(q) |-> IF k > 1 /\ Rnd(940 + k, 12) = 0 THEN [q[k] EXCEPT !.shape = q[k-1].shape] ELSE q[k]]
Scene == LET s == RawScene r == [s EXCEPT !.ents = Repeats(s.ents)] IN [s EXCEPT !.ents = Number(Sel(r, Len(r.ents)))]
Valid(s) == /\ \A j, k \in 1..Len(s.ents) : j # k => Compatible(s.ents[j].shape, s.ents[k].shape)
            /\ \A k \in 1..Len(s.ents), j \in 1..Len(s.doms) : ~Tangent(s.ents[k].shape, s.doms[j].box)
            /\ Clear(s.doms, s.union, s.ents, s.contained)
Meta == LET s == Scene IN Valid(s) => GoodResult(s.doms, s.union, s.ents, s.contained)
Emit == LET s == Scene IN Valid(s) /\ s.ents # <<>> =>
  PrintT(ToJson([scene |-> s, frags |-> Fragments(s.doms, s.union, s.ents, s.contained),
                 domFrags |-> IF s.contained THEN DomFragments(s.doms, s.union, s.ents) ELSE <<>>]))
Init == seed \in Lo..(Lo + 63)
Next == seed + 64 <= Hi /\ seed' = seed + 64
=============================================================================
