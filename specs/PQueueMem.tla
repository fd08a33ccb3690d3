---- MODULE PQueueMem ----
(* PQueue under refused memory requests, see Mem.tla. *)
EXTENDS PQueue, Mem
MemFail(s, o) ==
  {}
MDo(s, o) ==
  CASE o.op = "newm" -> Created(Do(s, [o EXCEPT !.op = "new"]))
    [] o.op = "free" -> Released(Init0)
    [] OTHER -> Do(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
