---- MODULE BST ----
(* Binary search tree (srcs/toolbox/bst.c): the sorted sequence q of the (key, value) pairs present.
   Values are distinct identities; pairs with equal keys stay in insertion order. *)
EXTENDS Integers, Sequences, FiniteSets
Init0 == [open |-> FALSE, q |-> <<>>, rev |-> FALSE, hooks |-> FALSE]
NONE == -99999
Lt(s, a, b) == IF s.rev THEN b < a ELSE a < b

(* Node counts listed in order describe a tree iff some node counts everything and the two halves do so recursively *)
RECURSIVE Counts(_, _)
Counts(c, bal) ==
  c = <<>> \/ LET n == Len(c) IN
    /\ \A i \in 1..n : c[i] \in 1..n
    /\ Cardinality({i \in 1..n : c[i] = n}) = 1
    /\ LET i == CHOOSE j \in 1..n : c[j] = n
           l == i - 1
           r == n - i
       IN /\ bal => (l - r) \in {-1, 0, 1}
          /\ Counts(SubSeq(c, 1, i - 1), bal) /\ Counts(SubSeq(c, i + 1, n), bal)

(* the tree shape is not prescribed: the recorded counts must be those of some tree over the elements *)
Cnts(s, o, bal) == IF "r" \in DOMAIN o
                   THEN IF Len(o.r.cnts) = Len(s.q) /\ Counts(o.r.cnts, bal) THEN o.r.cnts ELSE <<-1>>
                   ELSE <<>>
Out(s, o, rc, k, v, f) ==
  [s |-> s, r |-> [rc |-> rc, key |-> k, val |-> v, freed |-> f,
                   keys |-> [i \in 1..Len(s.q) |-> s.q[i][1]], vals |-> [i \in 1..Len(s.q) |-> s.q[i][2]],
                   cnts |-> Cnts(s, o, o.op = "balance"), count |-> Len(s.q), empty |-> s.q = <<>>]]
Ok(s, o) == Out(s, o, 0, NONE, NONE, <<>>)

New(o) == Ok([Init0 EXCEPT !.open = TRUE, !.rev = o.rev, !.hooks = (o.kt = "ptr")], o)
(* a new pair goes after every pair whose key is not greater *)
Push(s, o) ==
  LET n == Cardinality({i \in 1..Len(s.q) : ~Lt(s, o.k, s.q[i][1])})
  IN Ok([s EXCEPT !.q = SubSeq(@, 1, n) \o <<<<o.k, o.v>>>> \o SubSeq(@, n + 1, Len(@))], o)
At(s, k) == {i \in 1..Len(s.q) : s.q[i][1] = k}
Freed(s, i) == IF s.hooks THEN <<s.q[i][2]>> ELSE <<>>
Delete(s, o) ==
  IF At(s, o.k) = {} THEN {Out(s, o, -1, NONE, NONE, <<>>)}
  ELSE {Out([s EXCEPT !.q = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))], o, 0, NONE, NONE, Freed(s, i)) : i \in At(s, o.k)}
Search(s, o) ==
  IF At(s, o.k) = {} THEN {Out(s, o, -1, NONE, NONE, <<>>)}
  ELSE {Out(s, o, 0, o.k, s.q[i][2], <<>>) : i \in At(s, o.k)}
Nth(s, o) == IF o.n >= Len(s.q) THEN Out(s, o, -1, NONE, NONE, <<>>)
             ELSE Out(s, o, 0, s.q[o.n + 1][1], s.q[o.n + 1][2], <<>>)
(* releasing the tree releases every pair still present, and leaves nothing allocated (live = 0) *)
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})
Free(s) == [s |-> Init0, r |-> [rc |-> 0, live |-> 0,
                                freed |-> IF s.hooks THEN SortSet({s.q[i][2] : i \in 1..Len(s.q)}) ELSE <<>>]]
Do(s, o) ==
  CASE o.op = "new"     -> {New(o)}
    [] o.op = "push"    -> {Push(s, o)}
    [] o.op = "delete"  -> Delete(s, o)
    [] o.op = "search"  -> Search(s, o)
    [] o.op = "nth"     -> {Nth(s, o)}
    [] o.op = "balance" -> {Ok(s, o)}
    [] o.op = "free"    -> {Free(s)}
    [] OTHER -> {}
Inv(s) == \A i \in 1..(Len(s.q) - 1) : ~Lt(s, s.q[i + 1][1], s.q[i][1])
====
