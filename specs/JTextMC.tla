---- MODULE JTextMC ----
(* Every text made of at most MaxLen pieces (Which selects the set of pieces): decoding is an inverse of encoding on all of them. *)
EXTENDS JText, Json, TLC
CONSTANTS MaxLen, Which
VARIABLES t, n, op
Pieces == CASE Which = 1 -> {<<91>>, <<93>>, <<123>>, <<125>>, <<58>>, <<44>>, <<34, 97, 34>>, <<49>>, <<116, 114, 117, 101>>, <<32>>}
            [] Which = 2 -> {<<45>>, <<48>>, <<49>>, <<46>>, <<101>>, <<43>>, <<93>>}
            [] Which = 3 -> {<<92>>, <<34>>, <<117>>, <<97>>, <<48>>, <<127>>, <<93>>}
            [] Which = 4 -> {<<116>>, <<114, 117>>, <<101>>, <<110, 117>>, <<108>>, <<102, 97>>, <<108, 115>>, <<32>>, <<93>>}
Prefix == CASE Which = 1 -> <<>> [] Which = 2 -> <<91>> [] Which = 3 -> <<91, 34>> [] Which = 4 -> <<91>>
MInit == t = Prefix /\ n = 0 /\ op = [op |-> "decode", t |-> Prefix]
MNext == n < MaxLen /\ n' = n + 1 /\ \E p \in Pieces : t' = t \o p /\ op' = [op |-> "decode", t |-> t']
MSpec == MInit /\ [][MNext]_<<t, n, op>>
Edge == PrintT(ToJson([f |-> 0, o |-> op', t |-> 0]))
MView == t
(* what the encoder writes for a decoded tree decodes to that tree, and nothing shorter than a whole tree decodes *)
RoundTrip == LET x == Root(t) IN x.p # 0 => /\ EncOk(Enc(x.n, 1), x.n)
                                            /\ \A i \in 1..x.p - 2 : ~Syntax(SubSeq(t, 1, i))
                                            /\ Tree(SubSeq(t, 1, x.p - 1)) = x.n
Shape == LET x == Root(t) IN x.p # 0 => x.n[1].d = 0 /\ \A i \in 2..Len(x.n) : x.n[i].d \in 1..x.n[i - 1].d + 1
====
