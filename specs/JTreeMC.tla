---- MODULE JTreeMC ----
(* Exhaustive exploration of small forests: construction, edits, indexing and lookups. *)
EXTENDS JTree, Json, TLC
CONSTANTS MaxNode, Types
VARIABLES s, op
MInit == s = TInit0 /\ op = [op |-> "none"]
Commit(o) == op' = o /\ \E d \in TDo(s, o) : s' = d.s
Slot == Min2((1..MaxNode + 1) \ Ids(s))
KeyFor(i) == IF i = 2 THEN <<106>> ELSE <<107>>
Names == {<<46>>, <<46, 46, 107>>, <<46, 107>>, <<46, 91, 48, 93>>, <<91, 48, 93>>}
V1 == <<49>>
V2 == <<120>>
MNext ==
  \/ Slot <= MaxNode /\ \E ty \in Types : Commit([op |-> "new", n |-> Slot, ty |-> ty, k |-> KeyFor(Slot), v |-> V1])
  \/ \E i \in Ids(s) :
     \/ \E c \in Ids(s) : i \notin Sub(s, c) /\ Commit([op |-> "add", n |-> i, c |-> c])
     \/ Commit([op |-> "remove", n |-> i])
     \/ Commit([op |-> "index", n |-> i])
     \/ Commit([op |-> "unindex", n |-> i])
     \/ Cont(s.n[i].ty) /\ \E ty \in {"o", "a"} \ {s.n[i].ty} : Commit([op |-> "settype", n |-> i, ty |-> ty])
     \/ ~Cont(s.n[i].ty) /\ \E ty \in {"t", "n"} \ {s.n[i].ty} : Commit([op |-> "settype", n |-> i, ty |-> ty])
     \/ ~Cont(s.n[i].ty) /\ \E c \in {0, 1} : Commit([op |-> "setval", n |-> i, v |-> V2, chk |-> c])
     \/ i = 2 /\ Commit([op |-> "setkey", n |-> i, k |-> <<107>>])
     \/ Indexed(s, i) /\ \E m \in Names : \/ Commit([op |-> "get", n |-> i, name |-> m])
                                         \/ Commit([op |-> "settv", n |-> i, name |-> m, ty |-> "s", v |-> V2])
     \/ Commit([op |-> "look", n |-> i])
     \/ Commit([op |-> "enc", n |-> i])
     \/ \E j \in 0..1 : Cont(s.n[i].ty) /\ Commit([op |-> "nth", n |-> i, i |-> j])
     \/ Commit([op |-> "walk", n |-> i, post |-> TRUE, l |-> 0])
     \/ Commit([op |-> "print", n |-> i])
MSpec == MInit /\ [][MNext]_<<s, op>>
MView == s
St(x) == [j \in 1..MaxNode |-> IF j \in Ids(x) THEN <<x.n[j].p, x.n[j].ch, x.n[j].k, x.n[j].ty, x.n[j].v, IF j \in x.ix THEN 1 ELSE 0>> ELSE <<>>]
Edge == PrintT(ToJson([f |-> St(s), o |-> op', t |-> St(s')]))
TypeOK == TInv(s)
(* an indexed tree is frozen: only values and types of its leaves change *)
Frozen == [][\A i \in Ids(s) \cap Ids(s') : Indexed(s, i) /\ Indexed(s', i) =>
               /\ s'.n[i].p = s.n[i].p /\ s'.n[i].ch = s.n[i].ch /\ s'.n[i].k = s.n[i].k
               /\ Cont(s.n[i].ty) => s'.n[i].ty = s.n[i].ty]_<<s, op>>
(* removal takes exactly the subtree *)
Removal == [][op'.op = "remove" /\ s' # s => Ids(s) \ Ids(s') = Sub(s, op'.n)]_<<s, op>>
(* what is encoded decodes to the same tree whenever it can be represented *)
EncDec == \A i \in Ids(s) : LET n == Pre(s, i) IN Cont(s.n[i].ty) /\ ValidTree(n) /\ (\A j \in 1..Len(n) : n[j].ty # "u") => EncOk(Enc(n, 1), n)
(* names find the node they name *)
Names1 == \A i \in s.ix : \A j \in Sub(s, i) : LET k == Lookup(s, i, Fqn(s, j)) IN k # 0 /\ Fqn(s, k) = Fqn(s, j)
====
