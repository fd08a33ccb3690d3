---- MODULE TestsMC ----
(* Histories of test construction (the graph the sessions are taken from). *)
EXTENDS Tests, Json, TLC
CONSTANTS Cases
VARIABLES s, op
Total(x) == LET RECURSIVE G(_)
                G(i) == IF i = 0 THEN 0 ELSE Len(x.ts[i].cs) + G(i - 1) IN G(NS(x))
Ops == {[op |-> "new", w |-> FALSE], [op |-> "suite"]} \cup
       {[op |-> "case", i |-> i, b |-> b] : i \in 1..NS(s), b \in 0..2} \cup
       {[op |-> "cdep", i |-> i, j |-> j, d |-> d, k |-> 0] : i \in 1..NS(s), j \in 1..Cases, d \in 1..Cases} \cup
       {[op |-> "sdep", i |-> i, d |-> d, k |-> 0] : i \in 1..NS(s), d \in 1..2} \cup
       {[op |-> "run", p |-> p, serial |-> FALSE, fmt |-> 0, fault |-> "none", k |-> 0] : p \in {1, 2}}
Can(o) == /\ o.op = "suite" => NS(s) < 2
          /\ o.op = "case" => Total(s) < Cases
          /\ o.op = "cdep" => o.j <= Len(s.ts[o.i].cs) /\ o.d <= Len(s.ts[o.i].cs) /\ Cardinality(s.ts[o.i].cs[o.j].deps) < 2
MInit == s = Init0 /\ op = [op |-> "none"]
MNext == \E o \in Ops : Can(o) /\ op' = o /\ \E d \in Do(s, o) : s' = d.s
MSpec == MInit /\ [][MNext]_<<s, op>>
MView == s
Edge == PrintT(ToJson([f |-> s, o |-> op', t |-> s']))
SInv == Inv(s)
====
