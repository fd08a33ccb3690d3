---- MODULE FsMC ----
EXTENDS Fs, Json, TLC
CONSTANTS Faults
VARIABLES s, op
F == IF Faults THEN {"none", "open", "read", "write", "close", "link", "exdev", "exdev-unlink", "unlink", "exdev-write", "exdev-read", "exdev-open"} ELSE {"none", "exdev"}
Ops == {[op |-> "new"]} \cup {[op |-> "write", a |-> a, len |-> l, tag |-> t] : a \in 1..3, l \in {0, 5000}, t \in {1, 2}} \cup
       {[op |-> c, a |-> a, b |-> b] : c \in {"hard", "sym"}, a \in 1..3, b \in 1..3} \cup
       {[op |-> c, a |-> a, b |-> b, f |-> f, n |-> n] : c \in {"copy", "move"}, a \in 1..4, b \in 1..4, f \in F, n \in {1}} \cup
       {[op |-> c, a |-> 1, b |-> b, f |-> f, n |-> 2] : c \in {"copy", "move"}, b \in 2..3, f \in F \cap {"read", "write", "open"}} \cup
       {[op |-> "remove", a |-> a, b |-> 0, f |-> f, n |-> 1] : a \in 1..4, f \in {"none", "unlink"}}
MInit == s = Init0 /\ op = [op |-> "none"]
MNext == \E o \in Ops : op' = o /\ \E d \in Do(s, o) : s' = d.s
MSpec == MInit /\ [][MNext]_<<s, op>>
MView == s
Edge == PrintT(ToJson([f |-> s, o |-> op', t |-> s']))
SInv == Inv(s)
(* a successful copy or move carries the bytes over, and the bytes of the source are never gone *)
Safe == [][op'.op \in {"copy", "move"} =>
   LET d == s.d e == s'.d a == op'.a A == Res(d, a) IN
     d[A].k = "file" => \E i \in 1..4 : e[i].k = "file" /\ e[i].x = d[A].x]_<<s, op>>
====
