---- MODULE LexerMC ----
EXTENDS Lexer, Json, TLC
CONSTANTS MaxLen, Chars
VARIABLES s, op, seen, started        \* seen: the characters delivered so far
vars == <<s, op, seen, started>>
MInit == s = Init0 /\ op = [op |-> "none"] /\ seen = <<>> /\ started = FALSE
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}
Commit(o) == /\ op' = o
             /\ \E d \in Do(s, o) : /\ s' = d.s
                                    /\ seen' = IF o.op = "new" THEN <<>>
                                               ELSE IF o.op = "eat" THEN seen
                                               ELSE IF d.s.p > s.p THEN Append(seen, Peek(s)) ELSE seen
MNext ==
  \/ ~started /\ started' = TRUE /\ \E t \in Texts : Commit([op |-> "new", t |-> t])
  \/ started /\ UNCHANGED started /\
     \/ \E k \in {"next", "skip"}, b \in {TRUE} : Commit([op |-> k, pb |-> b])
     \/ \E k \in {"eat", "lmark", "rmark"} : Commit([op |-> k])
     \/ \E c \in Chars \cup {0} : Commit([op |-> "expect", c |-> c])
MSpec == MInit /\ [][MNext]_vars
MView == <<[s EXCEPT !.e = <<>>], started>>
Edge == PrintT(ToJson([f |-> [t |-> s.t, p |-> s.p, l |-> s.l, r |-> s.r, st |-> started], o |-> op',
                       t |-> [t |-> s'.t, p |-> s'.p, l |-> s'.l, r |-> s'.r, st |-> started']]))
Bounded == Inv(s)
(* every character is delivered at most once, in order; only white space is passed over *)
NonSpace(q) == SelectSeq(q, LAMBDA c : ~Space(c))
InOrder == started => NonSpace(seen) = NonSpace(Take(s.t, s.p))
Forward == [][op'.op # "new" => s'.p >= s.p /\ s'.t = s.t]_vars
====
