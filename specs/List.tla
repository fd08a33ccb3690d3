---- MODULE List ----
(* Linked list of pointers (srcs/toolbox/list.c): a sequence of item identities. *)
EXTENDS Integers, Sequences, FiniteSets
Init0 == [open |-> FALSE, q |-> <<>>]

(* the iterators tell the end of the list by a null pointer (item 0) *)
Shown(q) == IF \E i \in 1..Len(q) : q[i] = 0
            THEN SubSeq(q, 1, (CHOOSE i \in 1..Len(q) : q[i] = 0 /\ \A j \in 1..(i - 1) : q[j] # 0) - 1) ELSE q
Ok(s) == [s |-> s, r |-> [rc |-> 0, got |-> 0, items |-> Shown(s.q), byget |-> s.q, count |-> Len(s.q)]]
Fail(s) == [s |-> s, r |-> [rc |-> -1, got |-> 0, items |-> Shown(s.q), byget |-> s.q, count |-> Len(s.q)]]
With(s, q) == [s EXCEPT !.q = q]

InsertAt(q, n, p) == SubSeq(q, 1, n) \o <<p>> \o SubSeq(q, n + 1, Len(q))      \* n items before p
RemoveAt(q, n) == SubSeq(q, 1, n - 1) \o SubSeq(q, n + 1, Len(q))              \* n is 1-based

New(s) == Ok([open |-> TRUE, q |-> <<>>])
Add(s, p) == Ok(With(s, Append(s.q, p)))
Insert(s, p, n) == IF n > Len(s.q) THEN Fail(s) ELSE Ok(With(s, InsertAt(s.q, n, p)))
Del(s, p) ==
  LET at == {i \in 1..Len(s.q) : s.q[i] = p}
  IN IF at = {} THEN Fail(s)
     ELSE Ok(With(s, RemoveAt(s.q, CHOOSE i \in at : \A j \in at : i <= j)))
DelN(s, n) ==
  IF n >= Len(s.q) THEN Fail(s)
  ELSE LET d == Ok(With(s, RemoveAt(s.q, n + 1))) IN [d EXCEPT !.r.got = s.q[n + 1]]
GetN(s, n) == LET d == Ok(s) IN [d EXCEPT !.r.got = IF n < Len(s.q) THEN s.q[n + 1] ELSE 0]
Clear(s) == Ok(With(s, <<>>))

Do(s, o) ==
  CASE o.op = "new"    -> {New(s)}
    [] o.op = "add"    -> {Add(s, o.p)}
    [] o.op = "insert" -> {Insert(s, o.p, o.n)}
    [] o.op = "del"    -> {Del(s, o.p)}
    [] o.op = "deln"   -> {DelN(s, o.n)}
    [] o.op = "getn"   -> {GetN(s, o.n)}
    [] o.op = "clear"  -> {Clear(s)}
    [] OTHER -> {}
Inv(s) == \A i \in 1..Len(s.q) : s.q[i] >= 0
====
