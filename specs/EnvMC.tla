---- MODULE EnvMC ----
EXTENDS Env, Json, TLC
VARIABLES s, op
V == {<<>>, <<120>>}
A(n, e, k, v, f) == [n |-> n, e |-> e, kind |-> k, v |-> v, ref |-> f]
Scripts == {<<>>} \cup {<<A(n, e, "lit", v, 0)>> : n \in {1, 4, 5}, e \in {TRUE, FALSE}, v \in V} \cup
           {<<A(1, TRUE, "lit", v, 0), A(m, TRUE, k, <<122>>, 1)>> : v \in V, m \in {1, 2}, k \in {"ref", "cond", "default"}} \cup
           {<<A(5, FALSE, "ref", <<119>>, 1), A(6, TRUE, "ref", <<>>, 5), A(3, TRUE, "lit", <<61, 32>>, 0)>>}
P == {<<80, 95>>, <<80>>, <<80, 95, 65>>, <<81, 95>>, <<90>>}
Ops == {[op |-> "new"]} \cup {[op |-> "set", n |-> n, v |-> v] : n \in {1, 5}, v \in V \cup {NIL}} \cup {[op |-> "get", n |-> n] : n \in 1..2} \cup
       {[op |-> "load", p |-> p, as |-> a, end |-> "ok", fault |-> "none", k |-> 0] : p \in P, a \in Scripts} \cup
       {[op |-> "load", p |-> <<80, 95>>, as |-> a, end |-> "ok", fault |-> f, k |-> 1] : a \in {<<>>, <<A(1, TRUE, "lit", <<121>>, 0)>>}, f \in {"missing", "null", "popen", "setenv"}} \cup
       {[op |-> "load", p |-> <<80, 95>>, as |-> <<A(1, TRUE, "lit", <<121>>, 0)>>, end |-> e, fault |-> "none", k |-> 0] : e \in {"fail", "syntax"}}
MInit == s = Init0 /\ op = [op |-> "none"]
MNext == \E o \in Ops : op' = o /\ \E d \in Do(s, o) : s' = d.s
MSpec == MInit /\ [][MNext]_<<s, op>>
MView == s
Small == \A i \in 1..NN : Len(s'.e[i]) <= 1
Edge == PrintT(ToJson([f |-> s, o |-> op', t |-> s']))
SInv == Inv(s)
(* nothing outside the prefix changes *)
Confined == [][op'.op = "load" => \A i \in 1..NN : ~IsPrefixOf(op'.p, Names[i]) => s'.e[i] = s.e[i]]_<<s, op>>
====
