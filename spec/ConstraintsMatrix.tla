-------------------------- MODULE ConstraintsMatrix --------------------------
(* P05.  Constraints between pairs of entity sets.  Entities are parallel     *)
(* plates stacked on an axis; entity e is its height.  A constraint is a      *)
(* minimum distance 2m-1 (in half units: heights of set entities are even,    *)
(* those of candidates odd, so that no verdict is borderline).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rand
CONSTANTS IdSeq, CSeq, HSeq, MaxLen, Seeds
VARIABLES rel,      \* sequence of [a, b, c]: relations a -> b with constraint c
          sets,     \* id -> sequence of heights
          stype,    \* id -> geometry type, -1 as long as the set is empty
          log, seed
vars == <<rel, sets, stype, log, seed>>
Ids == {IdSeq[k] : k \in 1..Len(IdSeq)}
Abs(x) == IF x < 0 THEN -x ELSE x
Defined(a, b) == \E k \in 1..Len(rel) : rel[k].a = a /\ rel[k].b = b
HasRel(a) == \E k \in 1..Len(rel) : rel[k].a = a
Log(r) == log' = Append(log, r) /\ UNCHANGED seed
Same == UNCHANGED <<rel, sets, stype>>

Init == rel = <<>> /\ sets = [i \in Ids |-> <<>>] /\ stype = [i \in Ids |-> -1] /\ log = <<>> /\ seed \in Seeds

\* one call that relates all given pairs by constraint c; refused when the first pair is already related.
\* (lists in which a later pair is a duplicate are not exercised: the effect on the earlier ones is unspecified)
Fresh(ps) == \A k \in 1..Len(ps) : ~Defined(ps[k][1], ps[k][2]) /\ \A j \in 1..(k - 1) : ps[j] # ps[k]
AddConstraints(c, ps) ==
  \/ /\ Fresh(ps)
     /\ rel' = rel \o [k \in 1..Len(ps) |-> [a |-> ps[k][1], b |-> ps[k][2], c |-> c]]
     /\ UNCHANGED <<sets, stype>>
     /\ Log([op |-> "constrain", c |-> c, pairs |-> ps, r |-> "ok"])
  \/ /\ Len(ps) >= 1 /\ Defined(ps[1][1], ps[1][2])
     /\ Same
     /\ Log([op |-> "constrain", c |-> c, pairs |-> ps, r |-> "refused"])
AddEntity(i, t, h) == /\ stype[i] \in {-1, t}
                      /\ sets' = [sets EXCEPT ![i] = Append(@, h)]
                      /\ stype' = [stype EXCEPT ![i] = t]
                      /\ UNCHANGED rel
                      /\ Log([op |-> "entity", id |-> i, type |-> t, h |-> h])
Admissible(i, h) == \A k \in 1..Len(rel) : rel[k].a = i =>
                       \A j \in 1..Len(sets[rel[k].b]) : Abs(sets[rel[k].b][j] - h) >= rel[k].c
Evaluate(i, t, h) == Same /\ Log([op |-> "evaluate", id |-> i, type |-> t, h |-> h,
                       r |-> IF ~HasRel(i) THEN "refused" ELSE IF Admissible(i, h) THEN "yes" ELSE "no"])
Next == /\ Len(log) < MaxLen
        /\ \/ \E c \in {CSeq[k] : k \in 1..Len(CSeq)}, a, b \in Ids : AddConstraints(c, <<<<a, b>>>>)
           \/ \E i \in Ids, h \in {HSeq[k] : k \in 1..Len(HSeq)} : AddEntity(i, i % 2, 2 * h) \/ Evaluate(i, 0, 2 * h + 1)
RStep == LET k == 20 * Len(log)
             Id(n) == PickSeq(IdSeq, R(seed, k + n, 1000))
             c == PickSeq(CSeq, R(seed, k + 1, 1000))
             n == 1 + R(seed, k + 2, 3)
             ps == [j \in 1..n |-> <<Id(3 + 2 * j), Id(4 + 2 * j)>>]
             o == R(seed, k + 3, 10)
             i == Id(14)
             t == R(seed, k + 15, 3)
             h == PickSeq(HSeq, R(seed, k + 16, 1000))
         IN CASE o \in 0..2 -> IF Fresh(ps) \/ Defined(ps[1][1], ps[1][2]) THEN AddConstraints(c, ps) ELSE Evaluate(i, t, 2 * h + 1)
              [] o \in 3..5 -> AddEntity(i, IF stype[i] = -1 THEN t ELSE stype[i], 2 * h)
              [] OTHER -> Evaluate(i, t, 2 * h + 1)
RNext == Len(log) < MaxLen /\ RStep
Emit == Len(log) = MaxLen => PrintT(ToJson([hist |-> log]))
\* ---- properties of the specification
NoDuplicateRelation == \A a, b \in 1..Len(rel) : a # b => <<rel[a].a, rel[a].b>> # <<rel[b].a, rel[b].b>>
\* verdicts are monotone: growing sets and adding relations can only forbid
Monotone == \A k \in 1..Len(log) : log[k].op = "evaluate" /\ log[k].r = "no" => ~Admissible(log[k].id, log[k].h)
=============================================================================
