---- MODULE PQueue ----
(* Priority queue (srcs/toolbox/pqueue.c): a bag of (key, value) pairs; values are distinct identities. *)
EXTENDS Integers, Sequences, FiniteSets
Init0 == [cap |-> 0, items |-> {}]
NOKEY == -99999                 \* the caller's key variable left untouched
R(s, rc, val, k) == [rc |-> rc, val |-> val, key |-> k,
                     empty |-> s.items = {}, full |-> Cardinality(s.items) = s.cap]
New(o) == IF o.n < 2 THEN [s |-> Init0, r |-> [rc |-> -1, val |-> 0, key |-> NOKEY, empty |-> TRUE, full |-> TRUE]]
          ELSE LET t == [cap |-> o.n, items |-> {}] IN [s |-> t, r |-> R(t, 0, 0, NOKEY)]
Push(s, k, v) ==
  IF Cardinality(s.items) = s.cap THEN [s |-> s, r |-> R(s, -2, 0, NOKEY)]
  ELSE LET t == [s EXCEPT !.items = @ \cup {[key |-> k, val |-> v]}] IN [s |-> t, r |-> R(t, 0, 0, NOKEY)]
Maxima(s) == {x \in s.items : \A y \in s.items : y.key <= x.key}
DelMax(s) ==
  IF s.items = {} THEN {[s |-> s, r |-> R(s, 0, 0, NOKEY)]}
  ELSE {LET t == [s EXCEPT !.items = @ \ {x}] IN [s |-> t, r |-> R(t, 0, x.val, x.key)] : x \in Maxima(s)}
Peek(s) == {[s |-> s, r |-> R(s, 0, x.val, x.key)] : x \in Maxima(s)}       \* undefined on an empty queue
Do(s, o) ==
  CASE o.op = "new"    -> {New(o)}
    [] o.op = "push"   -> {Push(s, o.key, o.val)}
    [] o.op = "delmax" -> DelMax(s)
    [] o.op = "peek"   -> Peek(s)
    [] OTHER -> {}
Inv(s) == /\ Cardinality(s.items) <= s.cap
          /\ \A x, y \in s.items : x.val = y.val => x = y
====
