---- MODULE HMapMemMC ----
(* HMap with, at every step, the possibility that a memory request is refused. *)
EXTENDS HMapMC, HMapMem
RefusedOps == {[op |-> "put", m |-> i, k |-> k, v |-> v] : i \in 1..2, k \in Ks, v \in Vs} \cup {[op |-> "copy", m |-> i, from |-> 3 - i] : i \in 1..2}
Refuse == \E o \in RefusedOps : /\ s[o.m].open
                               /\ (o.op = "put" => Len(s[o.m].q) < MaxN \/ o.k \in Keys(s[o.m].q))
                               /\ (o.op = "copy" => s[o.from].open /\ Len(s[1].q) + Len(s[2].q) <= MaxN)
                               /\ \E d \in MemFail(s, o) : s' = d.s /\ op' = o @@ [mem |-> TRUE]
MMSpec == MInit /\ [][MNext \/ Refuse]_<<s, op>>
(* a refused insertion has no effect; a move that stops half way loses nothing but what the target's rules discard *)
Unaffected == [][("mem" \in DOMAIN op') => IF op'.op = "copy"
                   THEN s[1].pcy = "none" /\ s[2].pcy = "none" => Keys(s'[1].q) \cup Keys(s'[2].q) = Keys(s[1].q) \cup Keys(s[2].q)
                   ELSE s' = s]_<<s, op>>
====
