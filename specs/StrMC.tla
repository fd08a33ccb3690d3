---- MODULE StrMC ----
EXTENDS Str, Json
CONSTANTS MaxLen, Fmts
VARIABLES s, last
vars == <<s, last>>
Ts == {<<>>, <<97>>, <<32, 98>>, <<9, 32>>}
Ops == {[op |-> x, w |-> w, s |-> t, n |-> n] : x \in {"create", "set", "append"}, w \in 1..2, t \in Ts \cup {NIL}, n \in {0, 1, 2, 5}}
  \cup {[op |-> "cat", w |-> 1, s |-> t] : t \in Ts}
  \cup {[op |-> x, w |-> 1, kind |-> k, s |-> <<32, 98>>, n |-> 3] : x \in {"sprintf", "aprintf"}, k \in Fmts}
  \cup {[op |-> "copy", w |-> w, from |-> f] : w \in 1..2, f \in 1..2}
  \cup {[op |-> x, w |-> w] : x \in {"trim", "clear", "huge", "free", "detach"}, w \in 1..2}
  \cup {[op |-> "reserve", w |-> 1, n |-> n] : n \in {0, 1, 9}} \cup {[op |-> "setlen", w |-> 1, n |-> n] : n \in 0..MaxLen}
Init == s = Init0 /\ last = [op |-> "new"]
Bound(x) == (IF x.t[1] = Closed THEN 0 ELSE Len(x.t[1])) <= MaxLen /\ (IF x.t[2] = Closed THEN 0 ELSE Len(x.t[2])) <= MaxLen
Next == \E o \in Ops : Enabled(s, o) /\ \E d \in Do(s, o) : Bound(d.s) /\ s' = d.s /\ last' = o
Spec == Init /\ [][Next]_vars
OK == Inv(s)
(* an operation on one object never changes the other *)
Independent == [][\A w \in 1..2 : w # last'.w => s'.t[w] = s.t[w]]_vars
(* a failed operation changes nothing; trimming is idempotent and only removes *)
TrimIdem == \A w \in 1..2 : s.t[w] # Closed => TrimBlank(TrimBlank(s.t[w])) = TrimBlank(s.t[w])
View == s
Edge == PrintT(ToJson([f |-> s, o |-> last', t |-> s']))
====
