---- MODULE ArrayMC ----
EXTENDS Array, Json, TLC
CONSTANTS Types, Idx, Vals, Sizes
VARIABLES s, op
IdxSet == {0, 1, 3, 1100, -1}
Ops(st) == IF st.type = "none" THEN [op : {"new"}, type : Types, n : Sizes]
           ELSE [op : {"set"}, acc : Types, i : Idx, v : Vals, old : BOOLEAN]
                \cup [op : {"get"}, acc : Types, i : Idx] \cup [op : {"resize"}, i : Idx]
MInit == s = Init0 /\ op = [op |-> "none"]
MNext == \E o \in Ops(s) : \E d \in Do(s, o) : s' = d.s /\ op' = o
MSpec == MInit /\ [][MNext]_<<s, op>>
View(st) == [type |-> st.type, lb |-> st.lb, k |-> {<<i, st.a[i]>> : i \in DOMAIN st.a}]
MView == View(s)
Edge == PrintT(ToJson([f |-> View(s), o |-> op', t |-> View(s')]))
MInv == Inv(s)
(* frame: an operation changes at most the index it names *)
Frame == [][ s.type # "none" => \A i \in DOMAIN s.a : (op'.op # "set" \/ op'.i # i) => Val(s', i) = Val(s, i) ]_<<s, op>>
====
