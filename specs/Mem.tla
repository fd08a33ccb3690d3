---- MODULE Mem ----
(* Refused memory requests (u_memory_set_* hooks): what every data structure of the toolbox owes its user when an
   operation runs out of memory.  An event carries mem = TRUE when a request made by that operation was refused; such an
   operation may still succeed, or it fails: it then reports failure, has no visible effect on the structure, keeps nothing
   allocated for the refused element, and everything handed in stays with the caller.
   newm tries a creation with its first, second, ... request refused until it succeeds: leaked counts what the refused
   attempts left allocated. *)
EXTENDS Integers, TLC
Hit(o) == "mem" \in DOMAIN o /\ o.mem
Created(D) == {[s |-> d.s, r |-> d.r @@ [leaked |-> 0]] : d \in D}
Released(s0) == {[s |-> s0, r |-> [rc |-> 0, live |-> 0]]}
====
