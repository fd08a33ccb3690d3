---- MODULE HMapMC ----
(* Exhaustive exploration of small maps, for every policy. *)
EXTENDS HMap, Json, TLC
CONSTANTS Ks, Vs, Pcys, MaxE, MaxC, MaxN, Two
VARIABLES s, op
MInit == s = Init0 /\ op = [op |-> "none"]
Commit(o) == op' = o /\ \E d \in Do(s, o) : s' = d.s
MNext ==
  \/ ~s[1].open /\ \E p \in Pcys, own \in BOOLEAN, ow \in BOOLEAN :
       Commit([op |-> "new", m |-> 1, pcy |-> p, max |-> MaxE, own |-> own, ow |-> ow, fk |-> FALSE, fv |-> FALSE])
  \/ Two /\ s[1].open /\ ~s[2].open /\ s[1].own /\ \E p \in {"none", s[1].pcy}, ow \in BOOLEAN :
       Commit([op |-> "new", m |-> 2, pcy |-> p, max |-> MaxE, own |-> TRUE, ow |-> ow, fk |-> FALSE, fv |-> FALSE])
  \/ \E i \in 1..2 : s[i].open /\
     \/ \E k \in Ks, v \in Vs : (Len(s[i].q) < MaxN \/ k \in Keys(s[i].q)) /\ Commit([op |-> "put", m |-> i, k |-> k, v |-> v])
     \/ \E k \in Ks : (IF s[i].pcy # "lfu" THEN TRUE ELSE IF k \notin Keys(s[i].q) THEN TRUE ELSE s[i].q[Pos(s[i].q, k)].c < MaxC) /\ Commit([op |-> "get", m |-> i, k |-> k])
     \/ \E k \in Ks : Commit([op |-> "del", m |-> i, k |-> k])
     \/ Commit([op |-> "clear", m |-> i])
     \/ s[2].open /\ Len(s[1].q) + Len(s[2].q) <= MaxN /\ Commit([op |-> "copy", m |-> i, from |-> 3 - i])
     \/ i = 1 /\ s[1].q # <<>> /\ Commit([op |-> "copy", m |-> i, from |-> i])
MSpec == MInit /\ [][MNext]_<<s, op>>
MView == s
St(x) == [i \in 1..2 |-> [o |-> x[i].open, p |-> x[i].pcy, w |-> x[i].ow, u |-> x[i].own,
                          q |-> [j \in DOMAIN x[i].q |-> <<x[i].q[j].k, x[i].q[j].v, x[i].q[j].c>>]]]
Edge == PrintT(ToJson([f |-> St(s), o |-> op', t |-> St(s')]))
TypeOK == Inv(s)
(* an entry leaves only through an overwrite, a deletion, a clear, a move, or a discard that a new key made necessary;
   and a discard removes exactly one entry *)
NoLoss == [][\A i \in 1..2 : LET gone == Keys(s[i].q) \ Keys(s'[i].q) IN
              gone # {} => \/ op'.op \in {"del"} /\ gone = {op'.k}
                           \/ op'.op \in {"clear", "copy"}
                           \/ op'.op = "put" /\ s[i].pcy # "none" /\ Len(s[i].q) = s[i].max /\ Cardinality(gone) = 1
                              /\ op'.k \notin Keys(s[i].q) /\ op'.k \in Keys(s'[i].q)]_<<s, op>>
(* what was just put is there *)
Stored == [][op'.op = "put" => LET q == s'[op'.m].q IN op'.k \in Keys(q) /\
               (q[Pos(q, op'.k)].v = op'.v \/ (op'.k \in Keys(s[op'.m].q) /\ ~s[op'.m].ow))]_<<s, op>>
====
