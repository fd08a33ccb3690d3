---- MODULE BufMem ----
(* Buf under refused memory requests, see Mem.tla. *)
EXTENDS Buf, Mem
MemFail(s, o) ==
  CASE o.op \in {"append", "set", "printf", "reserve"} -> Out(s, o, -1, s.d, 0)
    [] o.op = "load" -> OutF(s, o, -1, s.d, s.fs, o.f)
    [] OTHER -> {}
MDo(s, o) ==
  CASE o.op = "newm" -> Created(Do(s, [o EXCEPT !.op = "new"]))
    [] OTHER -> Do(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
