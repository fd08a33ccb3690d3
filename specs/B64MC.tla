---- MODULE B64MC ----
(* Enumerates byte sequences and texts; decoding inverts encoding on all of them. *)
EXTENDS B64, Json, TLC
CONSTANTS MaxLen, Which
VARIABLES t, op
Bytes == IF Which = 1 THEN {0, 1, 63, 64, 128, 252, 255} ELSE {65, 47, 61, 97, 10, 200}
MInit == t = <<>> /\ op = [op |-> "none"]
MNext == /\ Len(t) < MaxLen
         /\ \E c \in Bytes : t' = Append(t, c)
         /\ IF Which = 1 THEN op' \in {[op |-> "enc", s |-> t', n |-> EncLen(Len(t')) + k] : k \in {-1, 0, 1}}
            ELSE op' \in {[op |-> "dec", s |-> t', n |-> n] : n \in {(Len(t') \div 4) * 3 - k : k \in 0..2} \cap Nat}
MSpec == MInit /\ [][MNext]_<<t, op>>
MView == <<t, op>>
Emit == op.op = "none" \/ PrintT(ToJson([f |-> 0, o |-> op, t |-> 0]))
Laws == /\ Which = 1 /\ t # <<>> => LET e == Encode(t) IN Valid(e) /\ Decode(e) = t /\ Len(e) = EncLen(Len(t))
        /\ Which = 2 /\ Valid(t) => Valid(Encode(Decode(t))) /\ Decode(Encode(Decode(t))) = Decode(t)
====
