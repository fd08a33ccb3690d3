---- MODULE StrMemMC ----
(* Str with, at every step, the possibility that a memory request is refused. *)
EXTENDS StrMC, StrMem
Refuse == \E o \in Ops : Enabled(s, o) /\ \E d \in MemFail(s, o) : s' = d.s /\ last' = o @@ [mem |-> TRUE]
MMSpec == Init /\ [][Next \/ Refuse]_vars
Unaffected == [][("mem" \in DOMAIN last') => s' = s]_vars
====
