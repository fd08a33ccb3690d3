---- MODULE HMap ----
(* Hash map (srcs/toolbox/hmap.c): two maps, so that contents can be moved from one to the other.
   A map is a finite function from keys to values plus the order its discard policy needs: entries are kept from the
   oldest to the newest (FIFO, LRU), in key order otherwise.  How keys are hashed, chained, probed and rehashed is not
   visible at all.  Values are identities: distinct insertions store distinct values; v % 3 is the priority of a value
   for the custom policy. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Closed == [open |-> FALSE, pcy |-> "none", max |-> 0, own |-> TRUE, ow |-> FALSE, fk |-> FALSE, fv |-> FALSE, q |-> <<>>]
Init0 == <<Closed, Closed>>
Keys(q) == {q[i].k : i \in DOMAIN q}
Pos(q, k) == CHOOSE i \in DOMAIN q : q[i].k = k
Timed(m) == m.pcy \in {"fifo", "lru"}
Prio(e) == e.v % 3
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Ins(m, q, e) == IF Timed(m) THEN Append(q, e)
                ELSE LET n == Cardinality({i \in DOMAIN q : q[i].k < e.k})
                     IN SubSeq(q, 1, n) \o <<e>> \o SubSeq(q, n + 1, Len(q))
(* the entries a full map may discard *)
Victims(m) ==
  CASE Timed(m) -> {1}
    [] m.pcy = "lfu" -> {i \in DOMAIN m.q : \A j \in DOMAIN m.q : m.q[i].c <= m.q[j].c}
    [] m.pcy = "custom" -> {i \in DOMAIN m.q : \A j \in DOMAIN m.q : Prio(m.q[i]) <= Prio(m.q[j])}
(* one insertion: the possible outcomes, out = values leaving the map's custody, rej = the new object was refused *)
Put1(m, k, v) ==
  LET e == [k |-> k, v |-> v, c |-> 0] IN
  IF k \in Keys(m.q) THEN
    LET p == Pos(m.q, k) IN
    IF m.ow THEN {[m |-> [m EXCEPT !.q = Ins(m, Del(@, p), e)], rc |-> 0, out |-> m.q[p].v]}
    ELSE {[m |-> m, rc |-> 1, out |-> v]}
  ELSE IF m.pcy = "none" \/ Len(m.q) < m.max THEN {[m |-> [m EXCEPT !.q = Ins(m, @, e)], rc |-> 0, out |-> 0]}
  ELSE {[m |-> [m EXCEPT !.q = Ins(m, Del(@, i), e)], rc |-> 0, out |-> m.q[i].v] : i \in Victims(m)}
Look(m, k) == IF k \notin Keys(m.q) THEN m
              ELSE LET p == Pos(m.q, k)  e == m.q[p] IN
                   CASE m.pcy = "lru" -> [m EXCEPT !.q = Append(Del(@, p), e)]
                     [] m.pcy = "lfu" -> [m EXCEPT !.q[p].c = @ + 1]
                     [] OTHER -> m
Sorted(S) == SetToSortSeq(S, <)
Vals(q) == [i \in DOMAIN q |-> q[i].v]
SortedVals(q) == SortSeq(Vals(q), <)
(* observation of one map: count, and the pairs a traversal visits in key order *)
Obs(m) == LET q == IF Timed(m) THEN SortSeq(m.q, LAMBDA a, b : a.k < b.k) ELSE m.q
          IN [n |-> IF m.open THEN Len(q) ELSE -1, k |-> [i \in DOMAIN q |-> q[i].k], v |-> [i \in DOMAIN q |-> q[i].v]]
(* kf, vf: identities passed to the key and value release functions during the call *)
Out(s, rc, got, old, freed, m) ==
  [s |-> s, r |-> [rc |-> rc, got |-> got, old |-> old,
                   kf |-> IF m.fk THEN freed ELSE <<>>, vf |-> IF m.fv THEN freed ELSE <<>>,
                   m |-> <<Obs(s[1]), Obs(s[2])>>,
                   live |-> 0]]
One(x) == IF x = 0 THEN <<>> ELSE <<x>>
Set(s, i, m) == [s EXCEPT ![i] = m]
DoPut(s, o) ==
  LET m == s[o.m] IN
  {IF m.own THEN Out(Set(s, o.m, p.m), p.rc, 0, 0, One(p.out), m)
   ELSE Out(Set(s, o.m, p.m), p.rc, 0, IF p.rc = 1 THEN m.q[Pos(m.q, o.k)].v ELSE p.out, <<>>, m) : p \in Put1(m, o.k, o.v)}
DoGet(s, o) ==
  LET m == s[o.m] IN
  {Out(Set(s, o.m, Look(m, o.k)), IF o.k \in Keys(m.q) THEN 0 ELSE -1, IF o.k \in Keys(m.q) THEN m.q[Pos(m.q, o.k)].v ELSE 0, 0, <<>>, m)}
DoDel(s, o) ==
  LET m == s[o.m] IN
  IF o.k \notin Keys(m.q) THEN {Out(s, -1, 0, 0, <<>>, m)}
  ELSE LET p == Pos(m.q, o.k)  v == m.q[p].v  t == Set(s, o.m, [m EXCEPT !.q = Del(@, p)])
       IN {IF m.own THEN Out(t, 0, 0, 0, <<v>>, m) ELSE Out(t, 0, 0, v, <<>>, m)}
DoClear(s, o) ==
  LET m == s[o.m] IN {Out(Set(s, o.m, [m EXCEPT !.q = <<>>]), 0, 0, 0, IF m.own THEN SortedVals(m.q) ELSE <<>>, m)}
DoFree(s, o) ==
  LET m == s[o.m] IN {Out(Set(s, o.m, Closed), 0, 0, 0, IF m.own THEN SortedVals(m.q) ELSE <<>>, m)}
(* moving everything to another map: insertions in an unspecified order *)
RECURSIVE Into(_, _, _)
Into(m, es, out) ==
  IF es = {} THEN {[m |-> m, out |-> out]}
  ELSE LET pick == IF m.pcy = "none" THEN {CHOOSE e \in es : TRUE} ELSE es
       IN UNION {UNION {Into(p.m, es \ {e}, IF p.out = 0 THEN out ELSE Append(out, p.out)) : p \in Put1(m, e.k, e.v)} : e \in pick}
DoCopy(s, o) ==
  LET m == s[o.m]  f == s[o.from] IN
  IF o.m = o.from THEN {Out(s, 0, 0, 0, <<>>, m)}
  ELSE {Out(Set(Set(s, o.m, x.m), o.from, [f EXCEPT !.q = <<>>]), 0, 0, 0, SortSeq(x.out, <), m) :
          x \in Into(m, {f.q[i] : i \in DOMAIN f.q}, <<>>)}
Do(s, o) ==
  CASE o.op = "new" ->
         LET m == [open |-> TRUE, pcy |-> o.pcy, max |-> o.max, own |-> o.own, ow |-> o.ow, fk |-> o.fk, fv |-> o.fv, q |-> <<>>]
             base == IF o.m = 1 THEN Init0 ELSE s        \* creating the first map starts a session
         IN {Out(Set(base, o.m, m), 0, 0, 0, <<>>, m)}
    [] o.op = "put" -> DoPut(s, o)
    [] o.op = "get" -> DoGet(s, o)
    [] o.op = "del" -> DoDel(s, o)
    [] o.op = "clear" -> DoClear(s, o)
    [] o.op = "free" -> DoFree(s, o)
    [] o.op = "copy" -> DoCopy(s, o)
    [] o.op = "dbg" -> {Out(s, 0, 0, 0, <<>>, s[o.m])}          \* printing a map changes nothing
    [] OTHER -> {}
Inv(s) == \A i \in 1..2 : /\ \A a, b \in DOMAIN s[i].q : s[i].q[a].k = s[i].q[b].k => a = b
                          /\ s[i].pcy = "none" \/ Len(s[i].q) <= s[i].max
====
