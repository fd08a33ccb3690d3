---- MODULE ListMem ----
(* List under refused memory requests, see Mem.tla. *)
EXTENDS List, Mem
MemFail(s, o) ==
  IF o.op \in {"add", "insert"} THEN {Fail(s)} ELSE {}
MDo(s, o) ==
  CASE o.op = "newm" -> Created(Do(s, [o EXCEPT !.op = "new"]))
    [] o.op = "free" -> Released(Init0)
    [] OTHER -> Do(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
