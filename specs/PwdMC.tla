---- MODULE PwdMC ----
EXTENDS Pwd, Json, TLC
CONSTANTS Deep
VARIABLES s, op
Joe == <<106, 111>>
Jo == <<106>>
W == <<119>>
HX == H(W) \o <<120>>
HW == H(W)
C == <<58>>
NL == <<10>>
Srcs == {<<>>, Joe \o C \o W \o NL, Joe \o C \o HW, Joe \o C \o HX \o NL \o Jo \o C \o SubSeq(HW, 1, 3) \o NL, Jo \o C \o W \o NL \o Joe \o C \o <<120>> \o C \o <<121>> \o NL,
         Joe \o C \o C \o W \o NL \o C \o Joe \o C \o W \o NL, <<35>> \o Joe \o C \o W \o NL \o NL,
         Joe \o NL \o Joe \o C \o W \o C \o NL \o Joe \o C \o <<122>> \o NL}
        \cup (IF Deep THEN {Joe \o C \o W \o C \o C \o W, <<32>> \o Joe \o C \o W \o NL, Jo \o C \o HW \o C \o HW \o NL \o Joe \o C \o <<32>> \o W} ELSE {})
Users == {Joe, Jo, <<>>, Joe \o C \o W, <<35>> \o Joe} \cup (IF Deep THEN {W, <<32>> \o Joe} ELSE {})
Pws == {W, HW, <<>>, Joe} \cup (IF Deep THEN {<<120>>} ELSE {})
Ops == {[op |-> "new", m |-> m, h |-> h, n |-> n, k |-> k] : m \in BOOLEAN, h \in BOOLEAN, n \in BOOLEAN, k \in {"cb", "nc"}} \cup
       {[op |-> "new", m |-> m, h |-> h, n |-> TRUE, k |-> "file"] : m \in BOOLEAN, h \in BOOLEAN} \cup {[op |-> "term"]} \cup {[op |-> "bad", w |-> w] : w \in {"uri", "open", "load", "len", "long", "out"}} \cup
       {[op |-> "src", t |-> t] : t \in Srcs} \cup
       {[op |-> "retr", u |-> u, f |-> f] : u \in Users, f \in {"none", "open"}} \cup {[op |-> "retr", u |-> Joe, f |-> "stat"]} \cup
       {[op |-> "auth", u |-> u, p |-> p, f |-> "none"] : u \in Users, p \in Pws} \cup {[op |-> "auth", u |-> Joe, p |-> W, f |-> f] : f \in {"open", "stat"}}
MInit == s = Init0 /\ op = [op |-> "none"]
MNext == \E o \in Ops : op' = o /\ \E d \in Do(s, o) : s' = d.s
MSpec == MInit /\ [][MNext]_<<s, op>>
(* only whether the version was seen matters *)
Norm(x) == [x EXCEPT !.ver = IF x.seen = 0 THEN 0 ELSE IF x.ver = x.seen THEN 1 ELSE 2, !.seen = IF x.seen = 0 THEN 0 ELSE 1]
MView == Norm(s)
Edge == PrintT(ToJson([f |-> Norm(s), o |-> op', t |-> Norm(s')]))
SInv == Inv(s)
(* nobody gets in whom neither the source nor the last good contents know with that password *)
Safe == [][op'.op = "auth" => \A d \in Do(s, op') : d.r.rc = 0 =>
   LET q == IF s.h THEN H(op'.p) ELSE op'.p IN
     \E rs \in {Recs(s.src), s.db} : rs # NoDb /\ \E i \in 1..Len(rs) : rs[i].u = op'.u /\ rs[i].p = q /\ rs[i].u # <<>> /\ rs[i].p # <<>>]_<<s, op>>
(* both modes agree once the memory is up to date *)
Agree == (s.on /\ s.m /\ s.n /\ s.ver = s.seen) => s.db = Recs(s.src)
====
