---- MODULE ConfigMC ----
(* Editing histories over small trees. *)
EXTENDS Config, Json, TLC
CONSTANTS MaxNodes, MaxDepth
VARIABLES s, op
a == <<97>>
b == <<98>>
ab == <<97, 46, 98>>
x == <<120>>
K == {a, b, ab}
VV == {NIL, x, <<36, 123, 97, 125, 121>>, <<36, 123>>}
RECURSIVE Count(_)
Count(n) == 1 + FoldLeft(LAMBDA p, q : p + Count(q), 0, n.c)
RECURSIVE Depth(_)
Depth(n) == IF n.c = <<>> THEN 0 ELSE 1 + Max({Depth(n.c[i]) : i \in 1..Len(n.c)})
RECURSIVE ShortVals(_)
ShortVals(n) == (n.v = NIL \/ Len(n.v) <= 2) /\ \A i \in 1..Len(n.c) : ShortVals(n.c[i])
Addrs(t) == {<<>>} \cup ToSet(Pre(t, <<>>))
Edit(t) == {[op |-> c, a |-> p, k |-> k, v |-> v] : c \in {"add", "set"}, p \in Addrs(t), k \in K, v \in VV} \cup
           {[op |-> "setval", a |-> p, v |-> v] : p \in Addrs(t) \ {<<>>}, v \in VV} \cup
           {[op |-> "child", a |-> p, k |-> k] : p \in Addrs(t), k \in {a, ab}} \cup
           {[op |-> "del", a |-> p, b |-> q] : p \in Addrs(t), q \in Addrs(t) \ {<<>>}} \cup
           {[op |-> "sort", a |-> <<>>, m |-> m] : m \in {"key", "rkey", "val"}} \cup
           {[op |-> "reload", a |-> <<>>, m |-> m] : m \in {"save", "print"}} \cup {[op |-> "new"]}
Look(t) == {[op |-> "get", a |-> p, k |-> k, n |-> n] : p \in Addrs(t), k \in K, n \in 0..2} \cup
           {[op |-> "nth", a |-> p, k |-> k, n |-> n] : p \in {<<>>}, k \in {a, NIL}, n \in 0..2} \cup
           {[op |-> "val", a |-> p, k |-> k] : p \in {<<>>}, k \in K} \cup
           {[op |-> "node", a |-> p] : p \in Addrs(t)} \cup {[op |-> "walk", a |-> <<>>, m |-> m] : m \in {"pre", "post"}} \cup
           {[op |-> "save", a |-> p, n |-> Len(ToText(At(t, p))) + d] : p \in Addrs(t), d \in {0, 1}} \cup {[op |-> "print", a |-> <<>>, n |-> 1]}
MInit == s = Init0 /\ op = [op |-> "none"]
MNext == \E o \in Edit(s.t) \cup Look(s.t) : op' = o /\ \E d \in Do(s, o) : s' = d.s
MSpec == MInit /\ [][MNext]_<<s, op>>
MView == s
InB(u) == Count(u.t) <= MaxNodes + 1 /\ Depth(u.t) <= MaxDepth /\ ShortVals(u.t)
InBounds == InB(s')
Edge == InB(s') => PrintT(ToJson([f |-> s, o |-> op', t |-> s']))
SInv == Inv(s) /\ Lossless(s.t) /\ PrintLossless(s.t)
====
