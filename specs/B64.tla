---- MODULE B64 ----
(* Base64 codec (srcs/toolbox/b64.c), RFC 4648.  Stateless. *)
EXTENDS Text
Init0 == 0
Inv(s) == TRUE
Sym(v) == CASE v < 26 -> 65 + v [] v < 52 -> 97 + v - 26 [] v < 62 -> 48 + v - 52 [] v = 62 -> 43 [] OTHER -> 47
IsSym(c) == Alpha(c) \/ Digit(c) \/ c \in {43, 47}
ValOf(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 97 + 26 [] Digit(c) -> c - 48 + 52 [] c = 43 -> 62 [] OTHER -> 63
EncLen(n) == ((n + 2) \div 3) * 4
RECURSIVE Encode(_), Decode(_)
Encode(d) ==
  IF d = <<>> THEN <<>>
  ELSE LET a == d[1]
           b == IF Len(d) > 1 THEN d[2] ELSE 0
           c == IF Len(d) > 2 THEN d[3] ELSE 0
       IN <<Sym(a \div 4), Sym((a % 4) * 16 + b \div 16), IF Len(d) > 1 THEN Sym((b % 16) * 4 + c \div 64) ELSE 61,
            IF Len(d) > 2 THEN Sym(c % 64) ELSE 61>> \o Encode(Drop(d, 3))
Pads(t) == IF t # <<>> /\ t[Len(t)] = 61 THEN (IF Len(t) > 1 /\ t[Len(t) - 1] = 61 THEN 2 ELSE 1) ELSE 0
Valid(t) == t # <<>> /\ Len(t) % 4 = 0 /\ \A i \in 1..Len(t) - Pads(t) : IsSym(t[i])
(* the bytes a valid text stands for *)
Decode(t) ==
  IF t = <<>> THEN <<>>
  ELSE LET v == [i \in 1..4 |-> ValOf(t[i])]
           n == 3 - Pads(Take(t, 4))
       IN Take(<<v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4, (v[3] % 4) * 64 + v[4]>>, n) \o Decode(Drop(t, 4))
R(x) == {[s |-> 0, r |-> x]}
Do(s, o) ==
  CASE o.op = "enc" -> LET t == Encode(o.s) IN
       R(IF o.s = <<>> \/ o.n = 0 \/ o.n < Len(t) THEN [rc |-> -1] ELSE [rc |-> 0, s |-> t, term |-> o.n > Len(t)])
    [] o.op = "dec" -> R(IF ~Valid(o.s) THEN [rc |-> -1, n |-> o.n] ELSE LET d == Decode(o.s) IN
                         IF o.n < Len(d) THEN [rc |-> -1, n |-> o.n] ELSE [rc |-> 0, n |-> Len(d), s |-> d])
    [] OTHER -> {}
====
