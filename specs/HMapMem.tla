---- MODULE HMapMem ----
(* HMap under refused memory requests, see Mem.tla. *)
EXTENDS HMap, Mem
(* moving stops where a request was refused: any part S of the contents may have moved, nothing is lost *)
Moved(s, o, S) ==
  LET m == s[o.m]  f == s[o.from] IN
  {Out(Set(Set(s, o.m, x.m), o.from, [f EXCEPT !.q = SelectSeq(@, LAMBDA e : e \notin {f.q[i] : i \in S})]), -1, 0, 0, SortSeq(x.out, <), m) :
     x \in Into(m, {f.q[i] : i \in S}, <<>>)}
MemFail(s, o) ==
  LET m == s[o.m] IN
  CASE o.op = "put" -> {Out(s, -1, 0, 0, <<>>, m)}
    [] o.op = "copy" -> LET f == s[o.from]
                            left == IF "r" \in DOMAIN o THEN {o.r.m[o.from].k[i] : i \in DOMAIN o.r.m[o.from].k} ELSE {}
                            moved == IF "r" \in DOMAIN o THEN {{i \in DOMAIN f.q : f.q[i].k \notin left}} ELSE SUBSET (DOMAIN f.q)
                        IN UNION {Moved(s, o, S) : S \in moved}
    [] OTHER -> {}
MDo(s, o) ==
  CASE o.op = "newm" -> Created(Do(s, [o EXCEPT !.op = "new"]))
    [] OTHER -> Do(s, o) \cup (IF Hit(o) THEN MemFail(s, o) ELSE {})
====
