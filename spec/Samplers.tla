------------------------------ MODULE Samplers ------------------------------
(* P19, P20.  Samplers as consumers of draws.  Every distribution is a        *)
(* sequence of draws; a sampler takes the next admissible draw of each        *)
(* distribution (inadmissible ones are skipped) and realises it.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rand
CONSTANTS Kind,   \* "disk", "poly", "quad", "box", "cyl"
          MaxLen, Seeds
VARIABLES pos,    \* distribution -> number of draws consumed
          open,   \* the sampler has not refused yet
          log, seed
vars == <<pos, open, log, seed>>
Dists == CASE Kind = "disk" -> <<"major", "minor", "ax", "ay", "az", "center">>
           [] Kind = "poly" -> <<"strike", "dip", "ls", "ld", "n", "center">>
           [] Kind = "quad" -> <<"strike", "dip", "ls", "ld", "center">>
           [] Kind = "box" -> <<"x", "y", "z">>
           [] OTHER -> <<"r2", "phi", "h">>
DistSet == {Dists[k] : k \in 1..Len(Dists)}
No(d) == CHOOSE k \in 1..Len(Dists) : Dists[k] = d
\* angles with rational sine and cosine: [c, s, n]: cos = c/n, sin = s/n
Ang == << <<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<-4, 3, 5>>, <<-5, -12, 13>>, <<12, 5, 13>>, <<-8, 15, 17>>, <<15, -8, 17>>, <<24, 7, 25>> >>
\* distributions that may stop producing admissible draws (the others are never that bad)
Starved == IF Kind \in {"poly", "quad"} /\ R(seed, 3, 4) = 0 THEN PickSeq(IF Kind = "poly" THEN <<"ls", "ld", "n">> ELSE <<"ls", "ld">>, R(seed, 4, 6)) ELSE "none"
StarvedFrom == R(seed, 5, 8)
Bad == R(seed, 6, 3)   \* how often draws are inadmissible
Draw(d, q) ==
  LET k == 5000 * No(d) + 3 * q r == R(seed, k, 12) bad == (Bad = 1 /\ R(seed, k + 1, 3) = 0) \/ (Bad = 2 /\ R(seed, k + 1, 4) # 0) \/ (d = Starved /\ q >= StarvedFrom) IN
  CASE d \in {"major", "minor", "ls", "ld"} -> IF bad THEN 0 - R(seed, k + 2, 4) ELSE 1 + r
    [] d = "n" -> IF bad THEN 2 - R(seed, k + 2, 5) ELSE 3 + R(seed, k + 2, 9)
    [] d \in {"ax", "ay", "az", "strike", "dip", "phi"} -> 1 + r
    [] OTHER -> r   \* box and cylinder coordinates, centres
Admissible(d, x) == CASE d \in {"major", "minor", "ls", "ld"} -> x > 0 [] d = "n" -> x >= 3 [] OTHER -> TRUE
RECURSIVE NextGood(_, _, _)
NextGood(d, q, tries) == IF Admissible(d, Draw(d, q)) THEN q ELSE IF tries = 0 THEN -1 ELSE NextGood(d, q + 1, tries - 1)
Starves(d) == NextGood(d, pos[d] + 1, 70) = -1
At(d) == NextGood(d, pos[d] + 1, 70)
Got(d) == Draw(d, At(d))
\* ---- realisations: vectors over a common denominator
A(d) == Ang[Got(d)]
\* the axes of a disk: the unit vectors rotated about the x-, y- and z-axis
DiskAxes == LET x == A("ax") y == A("ay") z == A("az")
                v1 == <<y[1], 0, 0 - y[2]>>                                   \* Ry e1, over y[3]
                u2 == <<x[2] * y[2], x[1] * y[3], x[2] * y[1]>>               \* Ry Rx e2 = Ry (0, cx, sx), over x[3] y[3]
                Rz(v) == <<z[1] * v[1] - z[2] * v[2], z[2] * v[1] + z[1] * v[2], z[3] * v[3]>> IN
            [major |-> [v |-> Rz(v1), n |-> y[3] * z[3]], minor |-> [v |-> Rz(u2), n |-> x[3] * y[3] * z[3]]]
\* the plane of a polygon: strike direction (y-axis turned by the strike angle), dip direction, normal
PlaneAxes == LET s == A("strike") d == A("dip") IN
             [strike |-> [v |-> <<0 - s[2], s[1], 0>>, n |-> s[3]],
              dip |-> [v |-> <<d[1] * s[1], d[1] * s[2], (0 - d[2]) * s[3]>>, n |-> d[3] * s[3]],
              normal |-> [v |-> <<d[2] * s[1], d[2] * s[2], d[1] * s[3]>>, n |-> d[3] * s[3]]]
Min(a, b) == IF a < b THEN a ELSE b
Sample ==
  CASE Kind = "disk" -> [axes |-> DiskAxes, major |-> Got("major"), minor |-> Min(Got("major"), Got("minor")), center |-> At("center")]
    [] Kind \in {"poly", "quad"} -> [plane |-> PlaneAxes, ls |-> Got("ls"), ld |-> Got("ld"), n |-> IF Kind = "poly" THEN Got("n") ELSE 4, center |-> At("center")]
    [] Kind = "box" -> [c |-> <<Got("x"), Got("y"), Got("z")>>]
    [] OTHER -> [r2 |-> Got("r2"), phi |-> A("phi"), h |-> Got("h")]
Refuses == \E d \in DistSet : Starves(d)
Init == pos = [d \in DistSet |-> 0] /\ open = TRUE /\ log = <<>> /\ seed \in Seeds
Next == /\ open /\ Len(log) < MaxLen
        /\ IF Refuses THEN log' = Append(log, [r |-> "refused"]) /\ open' = FALSE /\ UNCHANGED pos
           ELSE /\ log' = Append(log, [r |-> "ok", s |-> Sample]) /\ pos' = [d \in DistSet |-> At(d)] /\ UNCHANGED open
        /\ UNCHANGED seed
\* ---- properties of the specification
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Unit(w) == Dot(w.v, w.v) = w.n * w.n
GoodSample(s) ==
  CASE Kind = "disk" -> Unit(s.axes.major) /\ Unit(s.axes.minor) /\ Dot(s.axes.major.v, s.axes.minor.v) = 0 /\ s.minor > 0 /\ s.minor <= s.major
    [] Kind \in {"poly", "quad"} -> /\ Unit(s.plane.strike) /\ Unit(s.plane.dip) /\ Unit(s.plane.normal) /\ s.plane.strike.v[3] = 0
                       /\ Dot(s.plane.strike.v, s.plane.dip.v) = 0 /\ Dot(s.plane.strike.v, s.plane.normal.v) = 0 /\ Dot(s.plane.dip.v, s.plane.normal.v) = 0 /\ s.n >= 3 /\ s.ls > 0 /\ s.ld > 0
    [] OTHER -> TRUE
Good == \A k \in 1..Len(log) : log[k].r = "ok" => GoodSample(log[k].s)
\* every draw is used at most once, and all skipped ones are inadmissible
NoReuse == \A d \in DistSet : pos[d] >= Cardinality({k \in 1..Len(log) : log[k].r = "ok"})
Script(d) == [q \in 1..(IF d = Starved THEN 400 ELSE IF open THEN pos[d] ELSE At(d)) |-> Draw(d, q)]
Emit == (Len(log) = MaxLen \/ ~open) => PrintT(ToJson([kind |-> Kind, log |-> log, scripts |-> [d \in DistSet |-> Script(d)], angles |-> Ang]))
=============================================================================
