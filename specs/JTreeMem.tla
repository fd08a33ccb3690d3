---- MODULE JTreeMem ----
(* JTree under refused memory requests, see Mem.tla. *)
EXTENDS JTree, Mem
MInit0 == TInit0
MInv(s) == TInv(s)
MemFail(s, o) ==
  CASE o.op \in {"new", "dec", "index", "setkey", "setval", "settv", "add"} -> {Out(s, -1)}
    [] o.op = "enc" -> {[s |-> s, r |-> [rc |-> -1]]}
    [] OTHER -> {}
MDo(s, o) == TDo(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
