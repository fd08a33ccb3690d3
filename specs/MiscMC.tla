---- MODULE MiscMC ----
(* Enumerates small arguments of the utilities (Which selects the family) and checks laws of the specification on them. *)
EXTENDS Misc, Json, TLC
CONSTANTS MaxLen, Which
VARIABLES t, op
Chars == CASE Which = 1 -> {32, 9, 97} [] Which = 2 -> {47, 97} [] Which = 3 -> {44, 32, 97, 98}
           [] Which = 4 -> {32, 43, 45, 48, 57, 120} [] Which = 5 -> {45, 46, 49, 48, 101, 43} [] Which = 6 -> {0, 1, 2, 5, 8, 9}
Sz == 0..MaxLen + 1
OpsFor(x) ==
  CASE Which = 1 -> {[op |-> "trim", s |-> x], [op |-> "blankstr", s |-> x], [op |-> "strdup", s |-> x]} \cup {[op |-> "lcpy", s |-> x, n |-> n] : n \in Sz}
                    \cup {[op |-> "strndup", s |-> x, n |-> n] : n \in Sz} \cup {[op |-> "sstrncpy", s |-> x, n |-> n] : n \in Sz}
    [] Which = 2 -> {[op |-> "path", n |-> n, kind |-> "s", s |-> x, k |-> 0, sep |-> 47] : n \in Sz} \cup {[op |-> "printf", n |-> n, kind |-> "s", s |-> x, k |-> 0] : n \in Sz}
                    \cup {[op |-> "lcat", d |-> Take(x, i), s |-> Drop(x, i), n |-> n] : i \in 0..Len(x), n \in Sz}
    [] Which = 3 -> {[op |-> "strtok", s |-> x, d |-> d] : d \in {<<44>>, <<44, 32>>, <<>>}} \cup {[op |-> "tokenize", s |-> x, d |-> <<44, 32>>, n |-> n] : n \in 0..3}
    [] Which = 4 -> {[op |-> f, s |-> x, e |-> e] : f \in {"atol", "atoi", "atoumax"}, e \in {0, 34}}
    [] Which = 5 -> {[op |-> "atof", s |-> x, e |-> 34]}
    [] Which = 6 -> LET sc == [i \in 1..Len(x) |-> IF x[i] = 8 THEN -1 ELSE IF x[i] = 9 THEN -2 ELSE x[i]] IN
                    {[op |-> "io", dir |-> d, l |-> l, sc |-> sc, np |-> TRUE, ep |-> TRUE] : d \in {"r", "w"}, l \in {0, 1, 4}}
                    \cup {[op |-> "read", dir |-> "r", l |-> 3, sc |-> sc], [op |-> "write", dir |-> "w", l |-> 3, sc |-> sc]}
MInit == t = <<>> /\ op \in OpsFor(<<>>)
MNext == /\ Len(t) < MaxLen
         /\ \E c \in Chars : t' = Append(t, c) /\ op' \in OpsFor(t')
MSpec == MInit /\ [][MNext]_<<t, op>>
MView == <<t, op>>
Emit == PrintT(ToJson([f |-> 0, o |-> op, t |-> 0]))
RECURSIVE Cat(_)
Cat(p) == IF p = <<>> THEN <<>> ELSE p[1] \o Cat(Tail(p))
Laws ==
  /\ Which = 1 => LET x == TrimBlank(t) IN TrimBlank(x) = x /\ (x # <<>> => ~Blank(x[1]) /\ ~Blank(x[Len(x)]))
  /\ Which = 2 => LET x == Collapse(t, 47) IN \A i \in 1..Len(x) - 1 : ~(x[i] = 47 /\ x[i + 1] = 47)
  /\ Which = 3 => Cat(Pieces(t, {44, 32})) = SelectSeq(t, LAMBDA c : c \notin {44, 32})
  /\ Which = 6 /\ op.op = "io" => LET x == Xfer(op.l, 0, op.sc) IN x.n \in 0..op.l /\ (x.rc = 0 <=> x.n = op.l) /\ (x.eof => x.n < op.l)
====
