---- MODULE StrMem ----
(* Str under refused memory requests, see Mem.tla. *)
EXTENDS Str, Mem
MemFail(s, o) ==
  IF o.op \in {"create", "set", "append", "cat", "sprintf", "aprintf", "copy", "reserve"} THEN Out(s, o.w, -1, s.t[o.w]) ELSE {}
MDo(s, o) ==
  CASE o.op = "createm" -> Created(Do(s, [o EXCEPT !.op = "create"]))
    [] OTHER -> Do(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
