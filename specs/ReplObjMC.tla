---- MODULE ReplObjMC ----
(* Histories over the parts with a state: texts being tokenised, and the files made from templates. *)
EXTENDS Repl, Json, TLC
CONSTANTS Which, MaxOps
VARIABLES s, n, op
TTs == {<<>>, <<97>>, <<44>>, <<97, 44, 98>>, <<44, 44, 97, 46>>, <<97, 46, 98, 44, 44>>}
Ds == {<<>>, <<44>>, <<44, 46>>}
X == 88
Templates == {<<97, X>>, <<X>>, <<97, X, 46, 99>>, <<97>>, <<115, 117, 98, 47, X>>, <<110, 111, 47, X>>}
Ops == IF Which = 1 THEN [op : {"tset"}, k : {1, 3}, t : TTs] \cup [op : {"sep"}, k : {1}, d : Ds] \cup [op : {"tok"}, k : {3}, d : Ds]
       ELSE [op : {"touch"}, n : {<<97, 48>>, <<97>>, <<97, 97, 46, 99>>}] \cup [op : {"mk"}, t : Templates, sl : {0, 1, 2, 9}]
MInit == s = Init0 /\ n = 0 /\ op = [op |-> "none"]
MNext == /\ n < MaxOps /\ n' = n + 1
         /\ \E o \in Ops : op' = o /\ \E d \in Do(s, o) : s' = d.s
MSpec == MInit /\ [][MNext]_<<s, n, op>>
View == <<s, n>>
Edge == PrintT(ToJson([f |-> [x |-> s, n |-> n], o |-> op', t |-> [x |-> s', n |-> n']]))
(* tokenising never loses or invents a character that is no delimiter *)
Sub(u, v) == u = NIL \/ \E i \in 1..Len(v) + 1 : u = Drop(v, i - 1)
Progress == [][\A k \in 1..4 : op'.op \in {"sep", "tok"} /\ op'.k = k /\ s.tk[k] # NIL => Sub(s'.tk[k], s.tk[k]) /\ s'.tk[k] # s.tk[k]]_<<s, n, op>>
Grow == [][op'.op = "mk" => s.files \subseteq s'.files /\ Cardinality(s'.files) <= Cardinality(s.files) + 1]_<<s, n, op>>
====
