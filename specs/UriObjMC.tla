---- MODULE UriObjMC ----
(* Object histories: parsing, setting components in any order, composing. *)
EXTENDS Uri, Json, TLC
CONSTANTS MaxOps
VARIABLES s, n, op
Sc == <<104>>
H == <<104, 46, 105>>
Texts == {<<104, 58, 47, 47, 117, 58, 112, 64, 91, 58, 58, 49, 93, 58, 56, 47, 113, 63, 114, 35, 102>>, <<104, 58, 47, 47, 49, 46, 50, 46, 51, 46, 52>>,
          <<104, 58, 114>>, <<104, 58, 47, 47, 47, 47, 120>>, <<104, 58, 47, 47, 91, 118, 49, 46, 120, 93>>, <<58>>}
Vals(f) == CASE f = "scheme" -> {Sc} [] f = "host" -> {<<>>, H, <<58, 58, 50>>} [] f = "port" -> {<<>>, <<57>>} [] f = "user" -> {<<117>>}
             [] f = "pwd" -> {<<112>>} [] f = "userinfo" -> {<<>>, <<119>>} [] f = "authority" -> {<<>>, <<65, 58, 49>>}
             [] f = "path" -> {<<>>, <<114>>, <<47, 47, 120>>} [] f = "query" -> {<<113>>} [] OTHER -> {<<102>>}
Ops == {[op |-> "new"], [op |-> "knead"]} \cup {[op |-> "print", ext |-> b] : b \in {TRUE, FALSE}} \cup {[op |-> "parse", t |-> t, split |-> b] : t \in Texts, b \in {TRUE, FALSE}} \cup
       UNION {{[op |-> "set", f |-> f, v |-> v, null |-> FALSE] : v \in Vals(f)} : f \in Fields}
MInit == s = Init0 /\ n = 0 /\ op = [op |-> "none"]
MNext == /\ n < MaxOps /\ n' = n + 1
         /\ \E o \in Ops : /\ op' = o
                           /\ \E d \in Do(s, o) : s' = d.s
MSpec == MInit /\ [][MNext]_<<s, n, op>>
MView == <<s, n>>
Edge == PrintT(ToJson([f |-> s, o |-> op', t |-> s']))
SInv == Inv(s)
====
