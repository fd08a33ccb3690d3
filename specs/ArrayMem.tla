---- MODULE ArrayMem ----
(* Array under refused memory requests, see Mem.tla. *)
EXTENDS Array, Mem
MemFail(s, o) ==
  IF o.op \in {"set", "get", "resize"} THEN {[s |-> s, r |-> R(-1, UNTOUCHED)]} ELSE {}
MDo(s, o) ==
  CASE o.op = "newm" -> Created(Do(s, [o EXCEPT !.op = "new"]))
    [] o.op = "free" -> Released(Init0)
    [] OTHER -> Do(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
