---- MODULE MiscMem ----
(* The helpers that hand out memory, under refused memory requests, see Mem.tla. *)
EXTENDS Misc, Mem
MemFail(s, o) ==
  CASE o.op = "strtok" -> IF "r" \in DOMAIN o THEN R([rc |-> -1, n |-> o.r.n, tv |-> <<>>, live |-> 0]) ELSE {}
    [] o.op \in {"strdup", "strndup", "memdup"} -> R([s |-> NIL, live |-> 0])
    [] o.op = "load" -> R([rc |-> -1, s |-> NIL, live |-> 0, fds |-> 0])
    [] OTHER -> {}
MDo(s, o) == Do(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
