---- MODULE Text ----
(* Texts and byte strings are sequences of character codes 0..255; NIL = <<-1>> stands for a NULL pointer. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
NIL == <<-1>>
Blank(c) == c \in {32, 9}
Digit(c) == c \in 48..57
Alpha(c) == c \in 65..90 \/ c \in 97..122
MinN(a, b) == IF a < b THEN a ELSE b
MaxN(a, b) == IF a > b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, MinN(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Rep(c, n) == [i \in 1..n |-> c]
RECURSIVE Nat10(_)
Nat10(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Nat10(n \div 10), 48 + (n % 10))
Dec(n) == IF n < 0 THEN <<45>> \o Nat10(-n) ELSE Nat10(n)
(* first and last positions of s whose character does not satisfy P; 0 when all do *)
FirstNot(s, P(_)) == IF \E i \in 1..Len(s) : ~P(s[i]) THEN CHOOSE i \in 1..Len(s) : ~P(s[i]) /\ \A j \in 1..i - 1 : P(s[j]) ELSE 0
LastNot(s, P(_)) == IF \E i \in 1..Len(s) : ~P(s[i]) THEN CHOOSE i \in 1..Len(s) : ~P(s[i]) /\ \A j \in i + 1..Len(s) : P(s[j]) ELSE 0
TrimP(s, P(_)) == LET f == FirstNot(s, P) IN IF f = 0 THEN <<>> ELSE SubSeq(s, f, LastNot(s, P))
TrimBlank(s) == TrimP(s, Blank)
(* position of the first occurrence of a character satisfying P at or after i; 0 when none *)
IndexP(s, i, P(_)) == IF \E j \in i..Len(s) : P(s[j]) THEN CHOOSE j \in i..Len(s) : P(s[j]) /\ \A k \in i..j - 1 : ~P(s[k]) ELSE 0
IndexOf(s, i, c) == LET P(x) == x = c IN IndexP(s, i, P)
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
(* formats used by the drivers: the text printf must produce; <<-1>> when the conversion itself fails *)
Fmt(kind, s, n) ==
  CASE kind = "s" -> s
    [] kind = "d" -> Dec(n)
    [] kind = "sd" -> <<60>> \o s \o <<124>> \o Dec(n) \o <<62>>
    [] kind = "pad" -> Rep(32, MaxN(0, n - Len(s))) \o s
    [] kind = "lit" -> <<37, 97>>
    [] kind = "empty" -> <<>>
    [] kind = "bad" -> NIL
Min2(S) == CHOOSE x \in S : \A y \in S : x <= y
====
