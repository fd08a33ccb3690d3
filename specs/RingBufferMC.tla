---- MODULE RingBufferMC ----
EXTENDS RingBuffer, Json, TLC
CONSTANTS Caps, Kinds
VARIABLES s, op
Ops(st) == IF st.kind = "none" THEN [op : {"new"}, kind : Kinds, hint : Caps]
           ELSE [op : {"write", "read", "fast"}, n : 0..(st.cap + 1)] \cup [op : {"clear"}]
MInit == s = Init0 /\ op = [op |-> "none"]
MNext == \E o \in Ops(s) : \E d \in Do(s, o) : s' = d.s /\ op' = o
MSpec == MInit /\ [][MNext]_<<s, op>>
MView == [kind |-> s.kind, cap |-> s.cap, n |-> s.n, off |-> s.off]
View(st) == [kind |-> st.kind, cap |-> st.cap, n |-> st.n, off |-> st.off]
Edge == PrintT(ToJson([f |-> View(s), o |-> op', t |-> View(s')]))
MInv == Inv(s)
====
