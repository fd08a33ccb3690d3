---- MODULE EnvMem ----
(* Loading settings under refused memory requests, see Mem.tla: part of the variables may have been set when it fails. *)
EXTENDS Env, Mem
MemFail(s, o) ==
  IF o.op # "load" THEN {}
  ELSE LET f == Load(s.e, o.p, o.as)  obs == IF "r" \in DOMAIN o THEN o.r.e ELSE s.e
       IN R(-1, IF Partial(s.e, f, obs) THEN obs ELSE s.e)
MDo(s, o) == Do(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
