---- MODULE BSTMem ----
(* BST under refused memory requests, see Mem.tla. *)
EXTENDS BST, Mem
MemFail(s, o) ==
  IF o.op = "push" THEN {Out(s, o, -1, NONE, NONE, <<>>)} ELSE {}
MDo(s, o) ==
  CASE o.op = "newm" -> Created(Do(s, [o EXCEPT !.op = "new"]))
    [] OTHER -> Do(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
