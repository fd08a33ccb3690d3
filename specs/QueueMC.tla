---- MODULE QueueMC ----
(* Exhaustive exploration of the three containers.
   *)
EXTENDS Queue, Json, TLC
CONSTANTS E, Kinds
VARIABLES s, op
Ops == [op : {"head", "tail", "remove"}, e : E] \cup [op : {"after", "before", "replace"}, e : E, at : E]
       \cup [op : {"sweep", "rsweep"}, par : {0, 1}]
MInit == s = Init0 /\ op = [op |-> "none"]
MNext == \E o \in (IF s.kind = "none" THEN [op : {"new"}, kind : Kinds] ELSE Ops) : \E d \in Do(s, o) : s' = d.s /\ op' = o
MSpec == MInit /\ [][MNext]_<<s, op>>
MView == s
Edge == PrintT(ToJson([f |-> s, o |-> op', t |-> s']))
MInv == Inv(s)
(* relative order of surviving elements never changes *)
Order == [][ s'.kind = s.kind => \A a, b \in Els(s.q) \cap Els(s'.q) : (Pos(s.q, a) < Pos(s.q, b)) = (Pos(s'.q, a) < Pos(s'.q, b)) ]_<<s, op>>
====
