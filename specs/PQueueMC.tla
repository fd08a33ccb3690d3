---- MODULE PQueueMC ----
(* Design level: the 1-based binary heap in an array, with bubble-up and bubble-down, refines the bag. *)
EXTENDS PQueue, Json, TLC
CONSTANTS Keys, MaxCap
VARIABLES h, cap, n, op, s       \* h: heap of (key, val); n: values given out so far
KeySet == {-1, 0, 2}
Swap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
RECURSIVE Up(_, _)
Up(a, k) == IF k > 1 /\ a[k \div 2].key < a[k].key THEN Up(Swap(a, k, k \div 2), k \div 2) ELSE a
RECURSIVE Down(_, _, _)
Down(a, k, m) ==
  IF 2 * k > m THEN a
  ELSE LET j == IF 2 * k < m /\ a[2 * k].key < a[2 * k + 1].key THEN 2 * k + 1 ELSE 2 * k
       IN IF ~(a[k].key < a[j].key) THEN a ELSE Down(Swap(a, k, j), j, m)
HPush(k, v) == IF Len(h) = cap THEN h ELSE Up(Append(h, [key |-> k, val |-> v]), Len(h) + 1)
HDel == IF h = <<>> THEN <<>> ELSE SubSeq(Down(Swap(h, 1, Len(h)), 1, Len(h) - 1), 1, Len(h) - 1)
Bag(a) == {a[i] : i \in 1..Len(a)}

MInit == h = <<>> /\ cap = 0 /\ n = 0 /\ op = [op |-> "none"] /\ s = Init0
Commit(o, a) ==
  /\ op' = o
  /\ h' = a
  /\ \E d \in Do(s, o) : d.s.items = Bag(a) /\ s' = d.s     \* the heap step is an allowed abstract step
MNext ==
  \/ cap = 0 /\ \E c \in 0..MaxCap : /\ op' = [op |-> "new", n |-> c] /\ s' = New(op').s /\ cap' = s'.cap
                                     /\ UNCHANGED <<h, n>>
  \/ cap > 0 /\ UNCHANGED cap /\
     \/ \E k \in Keys : n' = n + 1 /\ Commit([op |-> "push", key |-> k, val |-> n + 1], HPush(k, n + 1))
     \/ Commit([op |-> "delmax"], HDel) /\ UNCHANGED n
     \/ h # <<>> /\ Commit([op |-> "peek"], h) /\ UNCHANGED n
MSpec == MInit /\ [][MNext]_<<h, cap, n, op, s>>
MView == <<cap, [i \in 1..Len(h) |-> h[i].key]>>
VW(c, a) == [cap |-> c, h |-> [i \in 1..Len(a) |-> a[i].key]]
Edge == PrintT(ToJson([f |-> VW(cap, h), o |-> op', t |-> VW(cap', h')]))
(* safety of the design *)
HeapOrder == \A i \in 2..Len(h) : h[i \div 2].key >= h[i].key
Refines == s.items = Bag(h) /\ Len(h) = Cardinality(Bag(h)) /\ Inv(s)
(* the step that the design takes must exist in the abstract specification *)
NoStuck == cap > 0 => /\ \A k \in Keys : \E d \in Do(s, [op |-> "push", key |-> k, val |-> n + 1]) : d.s.items = Bag(HPush(k, n + 1))
                      /\ \E d \in Do(s, [op |-> "delmax"]) : d.s.items = Bag(HDel)
====
