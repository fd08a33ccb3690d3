---- MODULE JText ----
(* The JSON language of srcs/toolbox/json.c: a text denotes a tree, given in preorder as a sequence of nodes
   [d |-> depth, k |-> key (NIL for array elements and the root), ty |-> type, v |-> literal value]. *)
EXTENDS Text
CONSTANTS TokenSz, MaxDepth
At(t, p) == IF p <= Len(t) THEN t[p] ELSE 0
Ws(c) == c \in {32} \cup 9..13
Hex(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102
RECURSIVE SkipWs(_, _)
SkipWs(t, p) == IF Ws(At(t, p)) THEN SkipWs(t, p + 1) ELSE p
(* position of the quote closing a string whose contents start at p; 0: malformed *)
RECURSIVE StrEnd(_, _)
StrEnd(t, p) ==
  LET c == At(t, p) IN
  CASE c = 34 -> p
    [] c = 92 -> LET e == At(t, p + 1) IN
                 IF e = 117 THEN IF \A i \in 2..5 : Hex(At(t, p + i)) THEN StrEnd(t, p + 6) ELSE 0
                 ELSE IF e \in {34, 92, 47, 98, 102, 110, 114, 116} THEN StrEnd(t, p + 2) ELSE 0
    [] c < 32 \/ c = 127 -> 0
    [] OTHER -> StrEnd(t, p + 1)
RECURSIVE Digits(_, _)
Digits(t, p) == IF Digit(At(t, p)) THEN Digits(t, p + 1) ELSE p
(* position following the number which starts at p; 0: malformed *)
NumEnd(t, p) ==
  LET i == IF At(t, p) = 45 THEN p + 1 ELSE p
      a == IF At(t, i) = 48 THEN i + 1 ELSE Digits(t, i)
      f == IF At(t, a) = 46 THEN (IF Digit(At(t, a + 1)) THEN Digits(t, a + 1) ELSE 0) ELSE a
      x == IF At(t, f) \in {69, 101} THEN (LET y == IF At(t, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1
                                           IN IF Digit(At(t, y)) THEN Digits(t, y) ELSE 0) ELSE f
  IN IF a = i \/ f = 0 THEN 0 ELSE x
FAIL == [p |-> 0, n |-> <<>>]
Node(d, k, ty, v) == [d |-> d, k |-> k, ty |-> ty, v |-> v]
Span(t, a, b) == SubSeq(t, a, b - 1)
Lit(t, p, w) == IF \A i \in 1..Len(w) : At(t, p + i - 1) = w[i] THEN p + Len(w) ELSE 0
TRUE_ == <<116, 114, 117, 101>>
FALSE_ == <<102, 97, 108, 115, 101>>
NULL_ == <<110, 117, 108, 108>>
RECURSIVE Value(_, _, _, _), Elems(_, _, _, _), Members(_, _, _, _)
(* the value which starts at p, at depth d, under the key k *)
Value(t, p, d, k) ==
  LET c == At(t, p)
      word(w, ty) == LET e == Lit(t, p, w) IN IF e = 0 THEN FAIL ELSE [p |-> e, n |-> <<Node(d, k, ty, w)>>]
  IN CASE c = 34 -> LET e == StrEnd(t, p + 1) IN
                    IF e = 0 \/ e - p - 1 >= TokenSz THEN FAIL ELSE [p |-> e + 1, n |-> <<Node(d, k, "s", Span(t, p + 1, e))>>]
       [] c = 45 \/ Digit(c) -> LET e == NumEnd(t, p) IN
                    IF e = 0 \/ e - p >= TokenSz THEN FAIL ELSE [p |-> e, n |-> <<Node(d, k, "n", Span(t, p, e))>>]
       [] c = 123 -> Members(t, p + 1, d, <<Node(d, k, "o", NIL)>>)
       [] c = 91 -> Elems(t, p + 1, d, <<Node(d, k, "a", NIL)>>)
       [] c = 116 -> word(TRUE_, "t")
       [] c = 102 -> word(FALSE_, "f")
       [] c = 110 -> word(NULL_, "0")
       [] OTHER -> FAIL
Elems(t, p, d, acc) ==
  LET q == SkipWs(t, p) IN
  IF At(t, q) = 93 THEN [p |-> q + 1, n |-> acc]
  ELSE LET v == Value(t, q, d + 1, NIL)
           z == SkipWs(t, v.p) IN
       IF v.p = 0 THEN FAIL
       ELSE CASE At(t, z) = 44 -> Elems(t, z + 1, d, acc \o v.n)
              [] At(t, z) = 93 -> [p |-> z + 1, n |-> acc \o v.n]
              [] OTHER -> FAIL
Members(t, p, d, acc) ==
  LET q == SkipWs(t, p) IN
  IF At(t, q) = 125 THEN [p |-> q + 1, n |-> acc]
  ELSE IF At(t, q) # 34 THEN FAIL
  ELSE LET e == StrEnd(t, q + 1)
           c == SkipWs(t, e + 1)
           v == Value(t, SkipWs(t, c + 1), d + 1, Span(t, q + 1, e))
           z == SkipWs(t, v.p) IN
       IF e = 0 \/ e - q - 1 >= TokenSz THEN FAIL
       ELSE IF At(t, c) # 58 THEN FAIL
       ELSE IF v.p = 0 THEN FAIL
       ELSE CASE At(t, z) = 44 -> Members(t, z + 1, d, acc \o v.n)
              [] At(t, z) = 125 -> [p |-> z + 1, n |-> acc \o v.n]
              [] OTHER -> FAIL
(* the text up to its root value; p = 0 when it is not in the language *)
Root(t) == LET q == SkipWs(t, 1) IN IF At(t, q) \in {91, 123} THEN Value(t, q, 0, NIL) ELSE FAIL
Syntax(t) == Root(t).p # 0
Tree(t) == Root(t).n
Deep(n) == \E i \in 1..Len(n) : n[i].d >= MaxDepth
Decodes(t) == LET x == Root(t) IN x.p # 0 /\ ~Deep(x.n)
(* a text whose root value is the whole text *)
Whole(t) == LET x == Root(t) IN x.p # 0 /\ SkipWs(t, x.p) = Len(t) + 1
(* ---- the encoder ---- *)
(* index of the node following the subtree of i *)
After(n, i) == IF \E j \in i + 1..Len(n) : n[j].d <= n[i].d
               THEN CHOOSE j \in i + 1..Len(n) : n[j].d <= n[i].d /\ \A k \in i + 1..j - 1 : n[k].d > n[i].d ELSE Len(n) + 1
RECURSIVE Enc(_, _), EncCh(_, _, _)
EncCh(n, j, end) == IF j >= end THEN <<>>
                    ELSE LET b == After(n, j) IN Enc(n, j) \o (IF b < end THEN <<44, 32>> \o EncCh(n, b, end) ELSE <<>>)
Enc(n, i) == LET x == n[i]
                 key == IF x.k = NIL THEN <<>> ELSE <<34>> \o x.k \o <<34, 58, 32>>
                 kids == EncCh(n, i + 1, After(n, i))
             IN key \o CASE x.ty = "o" -> <<123, 32>> \o kids \o <<32, 125>>
                         [] x.ty = "a" -> <<91, 32>> \o kids \o <<32, 93>>
                         [] x.ty = "s" -> <<34>> \o x.v \o <<34>>
                         [] OTHER -> x.v
(* any text with the same tree is as good an encoding *)
EncOk(txt, n) == Whole(txt) /\ Tree(txt) = n
Encoded(o, n) == IF "r" \in DOMAIN o /\ "enc" \in DOMAIN o.r /\ EncOk(o.r.enc, n) THEN o.r.enc ELSE Enc(n, 1)
Init0 == 0
(* what a decoded tree looks like through the navigation interface: depth, value, element count (arrays) of every node *)
Parent(n, i) == CHOOSE j \in 1..i - 1 : n[j].d = n[i].d - 1 /\ \A k \in j + 1..i - 1 : n[k].d >= n[i].d
Kids(n, i) == Cardinality({j \in i + 1..After(n, i) - 1 : n[j].d = n[i].d + 1})
Nav(n) == [i \in 1..Len(n) |-> <<n[i].d, n[i].v, IF n[i].ty = "a" THEN Kids(n, i) ELSE 0>>]
Do(s, o) ==
  CASE o.op = "decode" ->
       LET x == Root(o.t)
           ok == x.p # 0 /\ ~Deep(x.n)
       IN {[s |-> s, r |-> IF ok THEN [rc |-> 0, vrc |-> 0, why |-> FALSE, nav |-> Nav(x.n), enc |-> Encoded(o, x.n), live |-> 0]
                           ELSE [rc |-> -1, vrc |-> IF x.p # 0 THEN 0 ELSE -1, why |-> x.p = 0, live |-> 0]]}
    [] OTHER -> {}
Inv(s) == TRUE
====
