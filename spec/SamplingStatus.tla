--------------------------- MODULE SamplingStatus ---------------------------
(* P01.  Progress bookkeeping of a sampling procedure.                        *)
(* State: the accepted count of every id, the targets that are set, the       *)
(* number of rejected candidates.  Queries are transitions that only log the  *)
(* answer the specification prescribes; they never change the state.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rand
CONSTANTS IdSeq,      \* ids used by the client
          TargetSeq,  \* target values
          BatchSeq,   \* how many candidates are counted in one go
          MaxLen,     \* length of a history
          Seeds       \* seeds of the random histories ({0} for the exhaustive exploration)
VARIABLES count, target, touched, rejected, log, seed
vars == <<count, target, touched, rejected, log, seed>>
Ids == {IdSeq[k] : k \in 1..Len(IdSeq)}
Targets == {TargetSeq[k] : k \in 1..Len(TargetSeq)}
Batches == {BatchSeq[k] : k \in 1..Len(BatchSeq)}

NoTarget == -1
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Total        == SumOver(count, Ids)
WithTarget   == {i \in Ids : target[i] # NoTarget}
TargetSum    == SumOver(target, WithTarget)
FinishedId(i) == count[i] >= target[i]
Finished     == \A i \in WithTarget : FinishedId(i)

Init == /\ count = [i \in Ids |-> 0]
        /\ target = [i \in Ids |-> NoTarget]
        /\ touched = [i \in Ids |-> FALSE]     \* accepted while no target was set
        /\ rejected = 0
        /\ log = <<>>
        /\ seed \in Seeds

Log(r) == log' = Append(log, r) /\ UNCHANGED seed

SetTarget(i, n) == /\ target' = [target EXCEPT ![i] = n]
                   /\ touched' = [touched EXCEPT ![i] = FALSE]
                   /\ Log([op |-> "setTarget", id |-> i, n |-> n])
                   /\ UNCHANGED <<count, rejected>>
Accept(i, k) == /\ count' = [count EXCEPT ![i] = @ + k]
                /\ touched' = [touched EXCEPT ![i] = (target[i] = NoTarget)]
                /\ Log([op |-> "accept", id |-> i, n |-> k])
                /\ UNCHANGED <<target, rejected>>
Reject(k) == /\ rejected' = rejected + k
             /\ Log([op |-> "reject", n |-> k])
             /\ UNCHANGED <<count, target, touched>>
ResetAll == /\ count' = [i \in Ids |-> 0]
            /\ target' = [i \in Ids |-> NoTarget]
            /\ touched' = [i \in Ids |-> FALSE]
            /\ rejected' = 0
            /\ Log([op |-> "reset"])
ResetCounters == /\ count' = [i \in Ids |-> 0]
                 /\ Log([op |-> "resetCounters"])
                 /\ UNCHANGED <<target, touched, rejected>>
ResetCounter(i) == /\ count' = [count EXCEPT ![i] = 0]
                   /\ Log([op |-> "resetCounter", id |-> i])
                   /\ UNCHANGED <<target, touched, rejected>>
\* ---- queries
Same == UNCHANGED <<count, target, touched, rejected>>
QCount(i) == Same /\ Log([op |-> "getCount", id |-> i, r |-> count[i]])
QTotal    == Same /\ Log([op |-> "getTotal", r |-> Total])
QFin      == Same /\ Log([op |-> "finished", r |-> IF Finished THEN 1 ELSE 0])
\* 2 = refused; an id that was counted before a target was set is not asked for (its target is not defined)
QFinId(i) == Same /\ ~touched[i]
                  /\ Log([op |-> "finishedId", id |-> i,
                          r |-> IF target[i] = NoTarget THEN 2 ELSE IF FinishedId(i) THEN 1 ELSE 0])
QPrint(b) == Same /\ Log([op |-> "print", force |-> b, acc |-> Total, rej |-> rejected, tgt |-> TargetSum])

Mutate == \/ \E i \in Ids, n \in Targets : SetTarget(i, n)
          \/ \E i \in Ids, k \in Batches : Accept(i, k)
          \/ \E k \in Batches : Reject(k)
          \/ ResetAll \/ ResetCounters
          \/ \E i \in Ids : ResetCounter(i)
Query  == \/ \E i \in Ids : QCount(i) \/ QFinId(i)
          \/ QTotal \/ QFin \/ (\E b \in BOOLEAN : QPrint(b))
Next == Len(log) < MaxLen /\ (Mutate \/ Query)

\* the random histories: every step is one of the steps of Next, picked by the seed
RStep == LET k == 10 * Len(log)
             i == PickSeq(IdSeq, R(seed, k + 1, 1000))
             n == PickSeq(TargetSeq, R(seed, k + 2, 1000))
             b == PickSeq(BatchSeq, R(seed, k + 3, 1000))
             o == R(seed, k + 4, 24)
         IN  CASE o \in 0..3   -> SetTarget(i, n)
               [] o \in 4..9   -> Accept(i, b)
               [] o \in 10..11 -> Reject(b)
               [] o = 12       -> IF R(seed, k + 5, 3) = 0 THEN ResetAll ELSE Accept(i, 1)
               [] o = 13       -> ResetCounters
               [] o = 14       -> ResetCounter(i)
               [] o \in 15..16 -> QCount(i)
               [] o = 17       -> QTotal
               [] o \in 18..19 -> QFin
               [] o \in 20..21 -> IF touched[i] THEN QTotal ELSE QFinId(i)
               [] OTHER        -> QPrint(R(seed, k + 5, 2) = 0)
RNext == Len(log) < MaxLen /\ RStep

\* what the client must be able to observe at the end of every history
Observed == [hist |-> log, total |-> Total, fin |-> Finished,
             ids |-> [i \in Ids |-> [id |-> i, c |-> count[i],
                                     f |-> IF touched[i] THEN 3 ELSE IF target[i] = NoTarget THEN 2
                                           ELSE IF FinishedId(i) THEN 1 ELSE 0]],
             rej |-> rejected, tgt |-> TargetSum]
Emit == Len(log) = MaxLen => PrintT(ToJson(Observed))

\* ---- properties of the specification itself
TypeOK == /\ \A i \in Ids : count[i] >= 0 /\ target[i] >= NoTarget
          /\ rejected >= 0
FinishedIffAll == Finished <=> (\A i \in Ids : target[i] = NoTarget \/ count[i] >= target[i])
\* the counts are a function of the history: accepted since the last applicable reset
RECURSIVE Acc(_, _)
Acc(i, n) == IF n = 0 THEN 0
             ELSE LET e == log[n] IN
                  IF e.op \in {"reset", "resetCounters"} THEN 0
                  ELSE IF e.op = "resetCounter" /\ e.id = i THEN 0
                  ELSE (IF e.op = "accept" /\ e.id = i THEN e.n ELSE 0) + Acc(i, n - 1)
CountsAreHistory == \A i \in Ids : count[i] = Acc(i, Len(log))
RECURSIVE Rej(_)
Rej(n) == IF n = 0 THEN 0 ELSE IF log[n].op = "reset" THEN 0
          ELSE (IF log[n].op = "reject" THEN log[n].n ELSE 0) + Rej(n - 1)
RejectsAreHistory == rejected = Rej(Len(log))
=============================================================================
