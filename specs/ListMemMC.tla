---- MODULE ListMemMC ----
(* List with, at every step, the possibility that a memory request is refused. *)
EXTENDS ListMC, ListMem
Refuse == \E o \in Ops(s) : \E d \in MemFail(s, o) : s' = d.s /\ op' = o @@ [mem |-> TRUE]
MMSpec == MInit /\ [][MNext \/ (Refuse)]_<<s, op>>
(* a refused operation has no effect *)
Unaffected == [][("mem" \in DOMAIN op') => s' = s]_<<s, op>>
====
