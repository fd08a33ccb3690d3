---- MODULE BufMemMC ----
(* Buf with, at every step, the possibility that a memory request is refused. *)
EXTENDS BufMC, BufMem
Refuse == \E o \in Ops : \E d \in MemFail(s, o) : s' = d.s /\ last' = o @@ [mem |-> TRUE]
MMSpec == Init /\ [][Next \/ Refuse]_vars
Unaffected == [][("mem" \in DOMAIN last') => s' = s]_vars
====
