---- MODULE Lexer ----
(* Lexical tokenizer (srcs/toolbox/lexer.c): a cursor over a text, two marks and an error text. *)
EXTENDS Text
CONSTANTS TokenSz, ErrSz
Init0 == [t |-> <<>>, p |-> 0, l |-> 0, r |-> 0, e |-> <<>>]
Space(c) == c \in {32} \cup 9..13
Eot(s) == s.p >= Len(s.t)
Peek(s) == IF Eot(s) THEN 0 ELSE s.t[s.p + 1]
RECURSIVE Eat(_)
Eat(s) == IF ~Eot(s) /\ Space(Peek(s)) THEN Eat([s EXCEPT !.p = @ + 1]) ELSE s
(* the inclusive span between the marks; the end of the text counts as one more character *)
Match(s) == LET n == s.r - s.l + 1 IN IF s.r < s.l \/ n >= TokenSz THEN NIL ELSE Take(Drop(s.t, s.l), n)
NONE == -9
R(s, rc, c) == [s |-> s, r |-> [rc |-> rc, c |-> c, peek |-> Peek(s), pos |-> s.p, look |-> Drop(s.t, s.p), eot |-> Eot(s),
                                match |-> Match(s), err |-> s.e]]
Next1(s) == [s EXCEPT !.p = @ + 1]
(* after a failed expectation the error text says so: any non-empty text *)
Failed(s, o) == IF "r" \in DOMAIN o /\ o.r.err # <<>> THEN [s EXCEPT !.e = o.r.err] ELSE [s EXCEPT !.e = <<33>>]
Do(s, o) ==
  CASE o.op = "new" -> {R([Init0 EXCEPT !.t = o.t], 0, NONE)}
    [] o.op = "next" -> IF Eot(s) THEN {R(s, -1, NONE)}
                        ELSE LET n == Next1(s) IN {R(n, 0, IF o.pb THEN Peek(n) ELSE NONE)}
    [] o.op = "skip" -> IF Eot(s) THEN {R(s, -1, NONE)}
                        ELSE LET n == Eat(Next1(s)) IN {IF Eot(n) THEN R(n, -1, NONE) ELSE R(n, 0, IF o.pb THEN Peek(n) ELSE NONE)}
    [] o.op = "eat" -> LET n == Eat(s) IN {R(n, IF Eot(n) THEN -1 ELSE 0, NONE)}
    [] o.op = "expect" -> {IF ~Eot(s) /\ Peek(s) = o.c THEN R(Next1(s), 0, NONE) ELSE R(Failed(s, o), -1, NONE)}
    [] o.op = "lmark" -> {R([s EXCEPT !.l = s.p], 0, NONE)}
    [] o.op = "rmark" -> {R([s EXCEPT !.r = s.p], 0, NONE)}
    [] o.op = "seterr" -> {R([s EXCEPT !.e = Take(Fmt(o.kind, o.s, o.n), ErrSz - 1)], 0, NONE)}
    [] OTHER -> {}
Inv(s) == /\ s.p \in 0..Len(s.t) /\ s.l \in 0..Len(s.t) /\ s.r \in 0..Len(s.t)
          /\ Len(Match(s)) < TokenSz /\ Len(s.e) < ErrSz
====
