---- MODULE NetMC ----
EXTENDS Net, Json, TLC
CONSTANTS Deep
VARIABLES s, op
T(x) == x
Uris == { <<116,99,112,58,47,47,49,46,50,46,51,46,52,58,56,48>>,                      \* tcp://1.2.3.4:80
          <<85,68,80,52,58,47,47,42,58,104,116,116,112>>,                             \* UDP4://*:http
          <<116,99,112,54,58,47,47,91,42,93,58,42>>,                                  \* tcp6://[*]:*
          <<115,99,116,112,54,58,47,47,109,117,108,116,105,58,97,108,116>>,           \* sctp6://multi:alt
          <<117,100,112,58,47,47,109,117,108,116,105,58,49>>,                         \* udp:https://multi:1
          <<117,110,105,120,58,47,47,47,116,47,115>>,                                 \* unix:///t/s
          <<117,110,105,120,58,47,47>>,                                               \* unix://
          <<116,99,112,58,47,47,49,46,50,46,51,46,52,58,55,48,48,48,48>>,             \* tcp://1.2.3.4:70000
          <<116,99,112,58,47,47,49,46,50,46,51,46,52>>,                               \* tcp://1.2.3.4
          <<116,99,112,54,58,47,47,91,102,101,56,48,58,58,49,93,58,57,57>>,           \* tcp6://[fe80::1]:99
          <<104,116,116,112,58,47,47,111,110,101,58,56,48>> }                         \* http://one:80
Masks == {0, 1, 2, 4, 12, 2052, 4092, 1048576}
Plans == {<<>>} \cup {<<x>> : x \in 1..10} \cup {<<x, y, z>> : x \in {1, 5, 3, 7}, y \in {0, 2, 4, 8}, z \in {0, 5, 3}}
Mk == {[op |-> "mk", plan |-> p, tmo |-> t] : p \in Plans, t \in {-1, 50}}
Conns == {[op |-> "conn", tmo |-> t, first |-> f, ev |-> e, fin |-> n, so |-> x, hi |-> h, nb0 |-> b, ff |-> g, late |-> 0, tu |-> IF t >= 0 /\ e # <<>> THEN 300 ELSE 0] :
            t \in {-1, 0, 10, 2000}, f \in 0..3, e \in {<<>>, <<3>>, <<1, 4>>, <<6, 12, 1500>>}, n \in {-1, 0, 5, 10, 1600}, x \in 0..3, h \in BOOLEAN, b \in BOOLEAN, g \in 0..7}
Real(o) == (o.fin >= 0 \/ o.tmo >= 0 \/ o.first \in {0, 3}) /\ (o.first = 1 => o.tmo >= 0 \/ o.nb0)
           /\ (Deep \/ o.first \in {1, 2} \/ (o.ev = <<>> /\ o.fin = 5 /\ o.so = 0)) /\ (o.hi => o.ff = 0) /\ (o.ff # 0 => o.so = 0 /\ (Deep \/ o.ev = <<>>))
One == {o \in Conns : Real(o)} \cup
       {[op |-> "acc", k |-> k, end |-> e] : k \in {0, 1, 3}, e \in 0..3} \cup
       {[op |-> "nb", nb0 |-> a, on |-> b, ff |-> f] : a \in BOOLEAN, b \in BOOLEAN, f \in 0..2} \cup
       {[op |-> "nagle", bad |-> a, ff |-> f] : a \in BOOLEAN, f \in 0..1}
Ops == {[op |-> "new"], [op |-> "canacc"]} \cup {[op |-> "addr", uri |-> u, mode |-> m, k |-> k] : u \in Uris, m \in 0..2, k \in {0, -1}} \cup
       {[op |-> "opts", add |-> a, v |-> v] : a \in BOOLEAN, v \in Masks} \cup Mk \cup
       (IF s = Init0 THEN One \cup {[op |-> "sd", uri |-> u, mode |-> m, opts |-> 4096 - 4, plan |-> p, tmo |-> 50] : u \in Uris, m \in 0..1, p \in Plans} ELSE {})
MInit == s = Init0 /\ op = [op |-> "none"]
Can(o) == (o.op = "opts" => s.cs # <<>> /\ (o.add => s.opts \in Masks))
MNext == \E o \in Ops : Can(o) /\ \E d \in Do(s, o) : s' = d.s /\ op' = [o |-> o, r |-> d.r]
MSpec == MInit /\ [][MNext]_<<s, op>>
MView == s
Edge == PrintT(ToJson([f |-> s, o |-> op'.o, t |-> s']))
SInv == Inv(s)
(* never more than one socket at a time survives, a success is the last attempt, and waiting is bounded *)
Safe == [][LET o == op'.o r == op'.r IN
  /\ o.op = "mk" => Len(r.at) <= Len(s.cs) /\ (r.rc = 0 => r.at # <<>>) /\ (r.rc # 0 => Len(r.at) = Len(s.cs))
  /\ o.op = "conn" /\ o.tmo >= 0 => r.el <= o.tmo + 2
  /\ o.op = "conn" /\ o.ff = 0 => r.nb = o.nb0]_<<s, op>>
====
