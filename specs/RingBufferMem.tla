---- MODULE RingBufferMem ----
(* RingBuffer under refused memory requests, see Mem.tla. *)
EXTENDS RingBuffer, Mem
MemFail(s, o) ==
  {}
MDo(s, o) ==
  CASE o.op = "newm" -> Created(Do(s, [o EXCEPT !.op = "new"]))
    [] o.op = "freem" -> Released(Init0)
    [] OTHER -> Do(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
