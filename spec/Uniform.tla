------------------------------ MODULE Uniform ------------------------------
(* P20.  Points sampled uniformly within boxes, cylinders and hollow          *)
(* cylinders: the intervals of the local coordinates, the points at drawn     *)
(* fractions of the intervals, and a partition into cells of equal volume.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rand
CONSTANTS Lo, Hi
VARIABLES seed
Rnd(k, n) == R(seed, k, n)
Kind == PickSeq(<<"box", "cylinder", "hollow">>, Rnd(1, 3))
\* extents in integers
Box == [lo |-> [i \in 1..3 |-> Rnd(1 + i, 20) - 10], len |-> [i \in 1..3 |-> 1 + Rnd(4 + i, 9)]]
Rin == IF Kind = "hollow" THEN 1 + Rnd(8, 7) ELSE 0
Rout == Rin + 1 + Rnd(9, 6)
Height == 1 + Rnd(10, 12)
\* intervals of the three local coordinates (angle: in full turns)
Intervals == IF Kind = "box" THEN [i \in 1..3 |-> <<Box.lo[i], Box.lo[i] + Box.len[i]>>]
             ELSE << <<Rin * Rin, Rout * Rout>>, <<0, 1>>, <<0, Height>> >>
\* fractions (in eighths) of the drawn points
Fracs == [k \in 1..12 |-> [i \in 1..3 |-> Rnd(20 + 3 * k + i, 9)]]
\* the drawn local coordinates in eighths
Coord(i, f) == 8 * Intervals[i][1] + f * (Intervals[i][2] - Intervals[i][1])
Points == [k \in 1..12 |-> [i \in 1..3 |-> Coord(i, Fracs[k][i])]]
\* equal parts of every interval: all cells have the same volume, since a cylinder shell between
\* the squared radii a and b has the volume pi (b - a) h
Parts == IF Kind = "box" THEN <<3, 3, 3>> ELSE <<3, 4, 2>>
Bounds(i) == [j \in 1..(Parts[i] + 1) |-> Parts[i] * Intervals[i][1] + (j - 1) * (Intervals[i][2] - Intervals[i][1])] \* over Parts[i]
\* the volume of a cell is the product of its widths in the three local coordinates
Widths(i) == LET b == Bounds(i) IN {b[j + 1] - b[j] : j \in 1..Parts[i]}
Within == LET p == Points iv == Intervals IN \A k \in 1..12 : \A i \in 1..3 : 8 * iv[i][1] <= p[k][i] /\ p[k][i] <= 8 * iv[i][2]
Even == \A i \in 1..3 : Cardinality(Widths(i)) = 1
Emit == PrintT(ToJson([kind |-> Kind, rin |-> Rin, rout |-> Rout, height |-> Height, lo |-> Box.lo, len |-> Box.len, intervals |-> Intervals, fracs |-> Fracs, points |-> Points, parts |-> Parts]))
Init == seed \in Lo..(Lo + 63)
Next == seed + 64 <= Hi /\ seed' = seed + 64
=============================================================================
