----------------------------- MODULE EntitySets -----------------------------
(* P03.  Sets of entities of different geometry types, addressed by ids.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rand
CONSTANTS IdSeq, NumTypes, MaxLen, Seeds
VARIABLES type,     \* id -> geometry type of its set, -1 if there is none
          content,  \* id -> sequence of the tags of the entities added
          next,     \* next unused tag
          log, seed
vars == <<type, content, next, log, seed>>
Ids == {IdSeq[k] : k \in 1..Len(IdSeq)}
Types == 0..(NumTypes - 1)
Same == UNCHANGED <<type, content, next>>
Log(r) == log' = Append(log, r) /\ UNCHANGED seed
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Len(content[x]) + SumLen(S \ {x})

Init == /\ type = [i \in Ids |-> -1] /\ content = [i \in Ids |-> <<>>]
        /\ next = 1 /\ log = <<>> /\ seed \in Seeds
Add(i, t, how) ==
  IF type[i] \in {-1, t}
  THEN /\ type' = [type EXCEPT ![i] = t]
       /\ content' = [content EXCEPT ![i] = Append(@, next)]
       /\ next' = next + 1
       /\ Log([op |-> "add", id |-> i, type |-> t, how |-> how, tag |-> next, r |-> "ok"])
  ELSE Same /\ Log([op |-> "add", id |-> i, type |-> t, how |-> how, tag |-> next, r |-> "refused"])
\* a geometry of a type the set has not been declared for, through the abstract interface
AddForeign(i) == Same /\ Log([op |-> "addForeign", id |-> i, r |-> "refused"])
QNum(i) == Same /\ Log([op |-> "num", id |-> i, r |-> Len(content[i])])
QTotal == Same /\ Log([op |-> "total", r |-> SumLen(Ids)])
QApply(i) == Same /\ Log([op |-> "apply", id |-> i, type |-> type[i], tags |-> content[i],
                          r |-> IF type[i] = -1 THEN "none" ELSE "ok"])
Sets(S) == LET present == {i \in S : content[i] # <<>>} IN
           {[id |-> i, type |-> type[i], tags |-> content[i]] : i \in present}
QExportAll(sub) == Same /\ Log([op |-> "exportAll", sub |-> sub, sets |-> Sets(Ids)])
QExportSel(sel, sub) == Same /\ Log([op |-> "exportSel", sub |-> sub, sel |-> sel,
                                     sets |-> Sets({sel[k] : k \in 1..Len(sel)})])
Next == /\ Len(log) < MaxLen
        /\ \/ \E i \in Ids, t \in Types, h \in {"concrete", "abstract"} : Add(i, t, h)
           \/ \E i \in Ids : AddForeign(i) \/ QNum(i) \/ QApply(i)
           \/ QTotal \/ (\E s \in -1..0 : QExportAll(s))
           \/ (\E i, j \in Ids : QExportSel(<<i, j>>, 3))
RStep == LET k == 12 * Len(log)
             i == PickSeq(IdSeq, R(seed, k + 1, 1000))
             t0 == R(seed, k + 2, NumTypes)
             t == IF type[i] # -1 /\ R(seed, k + 3, 5) # 0 THEN type[i] ELSE t0
             o == R(seed, k + 4, 20)
             n == R(seed, k + 5, 4)
             sel == [j \in 1..n |-> PickSeq(IdSeq, R(seed, k + 5 + j, 1000))]
             sub == R(seed, k + 10, 5)
         IN CASE o \in 0..5 -> Add(i, t, "concrete")
              [] o \in 6..10 -> Add(i, t, "abstract")
              [] o = 11 -> AddForeign(i)
              [] o = 12 -> QNum(i)
              [] o = 13 -> QTotal
              [] o \in 14..15 -> QApply(i)
              [] o \in 16..17 -> QExportAll(sub - 1)
              [] OTHER -> QExportSel(sel, sub)
RNext == Len(log) < MaxLen /\ RStep
Emit == Len(log) = MaxLen =>
        PrintT(ToJson([hist |-> log, total |-> SumLen(Ids), sets |-> Sets(Ids), ids |-> IdSeq,
                       nums |-> [k \in 1..Len(IdSeq) |-> Len(content[IdSeq[k]])]]))
\* ---- properties of the specification
EachTagOnce == \A i, j \in Ids : \A a \in 1..Len(content[i]) : \A b \in 1..Len(content[j]) :
                  content[i][a] = content[j][b] => i = j /\ a = b
InsertionOrder == \A i \in Ids : \A a, b \in 1..Len(content[i]) : a < b => content[i][a] < content[i][b]
NothingLost == SumLen(Ids) = next - 1
=============================================================================
