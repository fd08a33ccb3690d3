---- MODULE PwdMem ----
(* Password stores under refused memory requests, see Mem.tla: an access fails, or goes on with the lines served so far
   as when the source cannot be opened; it never serves (or keeps) a part of the source. *)
EXTENDS Pwd, Mem
MemFail(s, o) ==
  IF ~s.on \/ o.op \notin {"retr", "auth"} THEN {}
  ELSE {[d EXCEPT !.r.tries = k] : d \in Do(s, [o EXCEPT !.f = "open"]), k \in {0, 1}}
       \cup {[s |-> q[1], r |-> IF o.op = "retr" THEN [rc |-> -1, u |-> NIL, p |-> NIL, o |-> NIL, open |-> 0, tries |-> k]
                                ELSE [rc |-> -1, open |-> 0, tries |-> k]] : q \in Look(s, o.f), k \in {0, 1}}
MDo(s, o) ==
  CASE o.op = "newm" -> Created(Do(s, [o EXCEPT !.op = "new"]))
    [] OTHER -> Do(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
