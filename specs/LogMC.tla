---- MODULE LogMC ----
EXTENDS Log, Json, TLC
VARIABLES s, op
ET == <<78, 111, 32, 115, 117, 99, 104, 32, 102, 105, 108, 101, 32, 111, 114, 32, 100, 105, 114, 101, 99, 116, 111, 114, 121>>   \* No such file or directory
Sized(lev, ctx, err) == LET o == [lev |-> lev, fac |-> 128, ctx |-> ctx, err |-> err, et |-> IF err = 0 THEN <<>> ELSE ET, file |-> <<102>>, line |-> 7, func |-> <<103>>,
                                  kind |-> "empty", s |-> <<>>, n |-> 0] IN Lim - Len(Full(o))
Wr(lev, ctx, err, kind, n) == [op |-> "write", lev |-> lev, fac |-> 128, ctx |-> ctx, err |-> err, et |-> IF err = 0 THEN <<>> ELSE ET, e0 |-> 5, file |-> <<102>>, line |-> 7, func |-> <<103>>,
                               kind |-> kind, s |-> <<104, 105>>, n |-> n]
Ops == {[op |-> "new"]} \cup {[op |-> "hook", h |-> h, a |-> a, want |-> w] : h \in 0..2, a \in 0..1, w \in BOOLEAN} \cup
       {[op |-> k, h |-> h, a |-> h] : k \in {"lock", "unlock"}, h \in 0..1} \cup
       {Wr(lev, TRUE, 0, "sd", 3) : lev \in 0..7} \cup
       {Wr(3, ctx, err, "pad", Sized(3, ctx, err) + k) : ctx \in BOOLEAN, err \in {0, 2}, k \in {-2, -1, 0, 1}} \cup
       {Wr(4, TRUE, 0, "pad", n) : n \in {1022, 1023, 1024, 1025, 3000}} \cup {Wr(4, TRUE, 2, "bad", 0), Wr(4, FALSE, 0, "empty", 0), Wr(4, FALSE, 0, "lit", 0)} \cup
       {[op |-> "mac", lev |-> lev, err |-> e, et |-> IF e = 0 THEN <<>> ELSE ET, e0 |-> 9, kind |-> "s", s |-> <<104>>, n |-> 0] : lev \in 0..7, e \in {0, 2}} \cup
       {[op |-> "con", err |-> e, et |-> IF e = 0 THEN <<>> ELSE ET, e0 |-> 4, kind |-> k, s |-> <<104>>, n |-> 2] : e \in {0, 2}, k \in {"s", "sd", "bad"}} \cup
       {[op |-> "strerr", en |-> 2, et |-> ET, n |-> n] : n \in {1, 2, 25, 26, 27, 128}}
MInit == s = Init0 /\ op = [op |-> "none"]
MNext == \E o \in Ops : op' = o /\ \E d \in Do(s, o) : s' = d.s
MSpec == MInit /\ [][MNext]_<<s, op>>
MView == s
Edge == PrintT(ToJson([f |-> s, o |-> op', t |-> s']))
SInv == Inv(s)
(* one delivery when accepted, none when refused; lock and unlock paired and around it *)
Once == [][op'.op = "write" => \A d \in Do(s, op') :
   LET D == {i \in 1..Len(d.r.ev) : d.r.ev[i].k \in {"hook", "syslog"}} IN
     /\ Cardinality(D) = IF d.r.rc = 0 THEN 1 ELSE 0
     /\ \A i \in D : Len(d.r.ev[i].t) < Lim \/ s.h = 0
     /\ (s.l # 0 /\ s.u # 0 /\ d.r.rc = 0) => d.r.ev[1].k = "lock" /\ d.r.ev[3].k = "unlock"]_<<s, op>>
====
