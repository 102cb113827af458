---------------------------- MODULE MultiSampler ----------------------------
(* P02.  A sampler that cycles over samplers of different geometry types.     *)
(* State: the registered samplers (in order), the position of the strategy,   *)
(* and how often every sampler has been called.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rand
CONSTANTS IdSeq, NumTypes, MaxLen, Seeds, Strategies
VARIABLES reg,      \* sequence of [id, type, tag]: registered samplers in order
          pos,      \* number of samples the strategy has handed out since the cycle began / its position
          calls,    \* how often sampler number k was called
          strategy, log, seed
vars == <<reg, pos, calls, strategy, log, seed>>
Ids == {IdSeq[k] : k \in 1..Len(IdSeq)}
Registered(i) == \E k \in 1..Len(reg) : reg[k].id = i
Same == UNCHANGED <<reg, pos, calls, strategy>>
Log(r) == log' = Append(log, r) /\ UNCHANGED seed

Init == /\ reg = <<>> /\ pos = 0 /\ calls = <<>> /\ log = <<>>
        /\ strategy \in Strategies /\ seed \in Seeds

\* The index (1-based) the strategy proposes next and its position afterwards.
\*  sequential: cyclic in registration order, new ids join at the end of the cycle
\*  reverse:    (client supplied) newest id first, cyclic
\*  sticky:     (client supplied) every id twice
NextIdx(p) == CASE strategy = "reverse" -> Len(reg) - (p % Len(reg))
                [] strategy = "sticky"  -> 1 + ((p \div 2) % Len(reg))
                [] OTHER -> p + 1
NextPos(p) == IF strategy \in {"default", "sequential"}
              THEN IF p + 1 = Len(reg) THEN 0 ELSE p + 1
              ELSE p + 1

Register(i, t) ==
  IF Registered(i)
  THEN Same /\ Log([op |-> "register", id |-> i, type |-> t, r |-> "refused"])
  ELSE /\ reg' = Append(reg, [id |-> i, type |-> t])
       /\ calls' = Append(calls, 0)
       /\ UNCHANGED <<pos, strategy>>
       /\ Log([op |-> "register", id |-> i, type |-> t, r |-> "ok"])
Draw ==
  IF reg = <<>>
  THEN Same /\ Log([op |-> "draw", r |-> "refused"])
  ELSE LET k == NextIdx(pos) IN
       /\ pos' = NextPos(pos)
       /\ calls' = [calls EXCEPT ![k] = @ + 1]
       /\ UNCHANGED <<reg, strategy>>
       /\ Log([op |-> "draw", r |-> "ok", id |-> reg[k].id, type |-> reg[k].type,
               sampler |-> k, call |-> calls[k] + 1])
Next == Len(log) < MaxLen /\ (Draw \/ \E i \in Ids, t \in 0..(NumTypes - 1) : Register(i, t))
RNext == Len(log) < MaxLen /\
         LET k == 10 * Len(log)
             burst == 1 + R(seed, k \div 80, 4)      \* phases with many / few registrations
         IN IF R(seed, k + 1, 6) < burst THEN Draw
            ELSE Register(PickSeq(IdSeq, R(seed, k + 2, 1000)), R(seed, k + 3, NumTypes))
Emit == Len(log) = MaxLen =>
        PrintT(ToJson([strategy |-> strategy, hist |-> log, calls |-> calls,
                       members |-> [i \in Ids |-> IF Registered(i) THEN 1 ELSE 0]]))
\* ---- properties of the specification
Unique == \A a, b \in 1..Len(reg) : a # b => reg[a].id # reg[b].id
RECURSIVE Sum(_, _)
Sum(q, n) == IF n = 0 THEN 0 ELSE q[n] + Sum(q, n - 1)
Draws == {k \in 1..Len(log) : log[k].op = "draw" /\ log[k].r = "ok"}
OneCallPerDraw == Sum(calls, Len(calls)) = Cardinality(Draws)
\* fairness of the cycle: an id registered before another one is never behind it
CycleOrder == strategy \in {"default", "sequential"} =>
              \A a, b \in 1..Len(reg) : a < b => calls[a] >= calls[b]
\* without a registration in between, ids recur exactly with period Len(reg)
RegsSince(k) == {j \in k..Len(log) : log[j].op = "register" /\ log[j].r = "ok"}
=============================================================================
