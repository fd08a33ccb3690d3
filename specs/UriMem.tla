---- MODULE UriMem ----
(* Uri under refused memory requests, see Mem.tla. *)
EXTENDS Uri, Mem
MemFail(s, o) ==
  CASE o.op = "parse" -> {R(Init0, -1)} [] o.op = "isabs" -> {R(s, 0)} [] OTHER -> {}
MDo(s, o) ==
  CASE FALSE -> {}
    [] OTHER -> Do(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
