---- MODULE BufMC ----
EXTENDS Buf, Json, TLC
CONSTANTS MaxLen, MaxF
VARIABLES s, last
vars == <<s, last>>
Bs == {<<>>, <<0>>, <<7>>, <<7, 7>>}
Ops == {[op |-> "append", b |-> b] : b \in Bs} \cup {[op |-> "set", b |-> b] : b \in Bs}
  \cup {[op |-> "printf", kind |-> "s", s |-> t, n |-> 0] : t \in {<<>>, <<7>>}}
  \cup {[op |-> "printf", kind |-> k, s |-> <<7>>, n |-> 1] : k \in {"empty", "bad", "pad"}}
  \cup {[op |-> "reserve", n |-> n] : n \in {0, 1, 2, 8}} \cup {[op |-> "shrink", n |-> n] : n \in 0..MaxLen}
  \cup {[op |-> x] : x \in {"huge", "clear", "detach", "savefull", "savedir", "loaddir"}}
  \cup {[op |-> x, f |-> f] : x \in {"save", "load"}, f \in 1..2} \cup {[op |-> "write", f |-> 1, b |-> b] : b \in {<<>>, <<7>>}}
Bound(x) == Len(x.d) <= MaxLen /\ \A f \in 1..2 : Len(x.fs[f]) <= MaxF
Init == s = [d |-> <<>>, fs |-> <<Absent, Absent>>] /\ last = [op |-> "new"]
Next == \E o \in Ops : \E d \in Do(s, o) : Bound(d.s) /\ s' = d.s /\ last' = o
Spec == Init /\ [][Next]_vars
(* saving and loading back gives identical bytes: whatever is loaded later from an untouched file is what was saved *)
SaveLoad == \A f \in 1..2 : \A x \in Do(s, [op |-> "save", f |-> f]) : \A y \in Do(x.s, [op |-> "load", f |-> f]) : y.s.d = s.d
OK == Inv(s) /\ SaveLoad
View == s
Edge == PrintT(ToJson([f |-> s, o |-> last', t |-> s']))
====
