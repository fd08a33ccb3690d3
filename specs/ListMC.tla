---- MODULE ListMC ----
EXTENDS List, Json, TLC
CONSTANTS Ptrs, MaxLen
VARIABLES s, op
Ops(st) == IF ~st.open THEN {[op |-> "new"]}
           ELSE [op : {"add", "del"}, p : Ptrs] \cup [op : {"insert"}, p : Ptrs, n : 0..(MaxLen + 1)]
                \cup [op : {"deln", "getn"}, n : 0..(MaxLen + 1)] \cup [op : {"clear"}]
MInit == s = Init0 /\ op = [op |-> "none"]
MNext == \E o \in Ops(s) : \E d \in Do(s, o) : Len(d.s.q) <= MaxLen /\ s' = d.s /\ op' = o
MSpec == MInit /\ [][MNext]_<<s, op>>
MView == s
Edge == PrintT(ToJson([f |-> s, o |-> op', t |-> s']))
MInv == Inv(s)
(* action property: an operation changes the sequence by at most one insertion or removal, or empties it *)
OneStep == [][ \/ s'.q = <<>>
               \/ s'.q = s.q
               \/ \E i \in 1..Len(s'.q) : RemoveAt(s'.q, i) = s.q
               \/ \E i \in 1..Len(s.q) : RemoveAt(s.q, i) = s'.q ]_<<s, op>>
====
