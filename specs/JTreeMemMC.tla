---- MODULE JTreeMemMC ----
(* JTree with, at every step, the possibility that a memory request is refused. *)
EXTENDS JTreeMC, JTreeMem
RefusedOps(i) == {[op |-> "index", n |-> i], [op |-> "enc", n |-> i], [op |-> "setval", n |-> i, v |-> V2, chk |-> 1], [op |-> "setkey", n |-> i, k |-> <<107>>]}
                 \cup {[op |-> "settv", n |-> i, name |-> m, ty |-> "s", v |-> V2] : m \in Names}
Refuse == \/ \E i \in Ids(s) : \E o \in RefusedOps(i) : \E d \in MemFail(s, o) : s' = d.s /\ op' = o @@ [mem |-> TRUE]
          \/ Slot <= MaxNode /\ \E ty \in Types : s' = s /\ op' = [op |-> "new", n |-> Slot, ty |-> ty, k |-> KeyFor(Slot), v |-> V1, mem |-> TRUE]
MMSpec == MInit /\ [][MNext \/ Refuse]_<<s, op>>
Unaffected == [][("mem" \in DOMAIN op') => s' = s]_<<s, op>>
====
