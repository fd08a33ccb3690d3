---- MODULE Misc ----
(* Text, number and I/O utilities (srcs/toolbox/misc.c).  Stateless: every event is one call. *)
EXTENDS Text
Init0 == 0
Inv(s) == TRUE
(* ---- text ---- *)
RECURSIVE Pieces(_, _)
(* the non-empty pieces of s between characters of D *)
Pieces(s, D) ==
  IF s = <<>> THEN <<>>
  ELSE LET P(c) == c \in D
           i == IndexP(s, 1, P)
           p == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
           rest == IF i = 0 THEN <<>> ELSE Pieces(SubSeq(s, i + 1, Len(s)), D)
       IN IF p = <<>> THEN rest ELSE <<p>> \o rest
RECURSIVE Collapse(_, _)
Collapse(s, c) == IF Len(s) < 2 THEN s
                  ELSE IF s[1] = c /\ s[2] = c THEN Collapse(Tail(s), c) ELSE <<s[1]>> \o Collapse(Tail(s), c)
Fits(s, n) == Len(s) < n
(* a buffer of n bytes holding as much of s as fits, terminated (nothing is written to an empty one) *)
Held(s, n) == IF n = 0 THEN NIL ELSE Take(s, n - 1)
(* ---- numbers ---- *)
Sp(c) == c \in {32} \cup 9..13
At(t, p) == IF p <= Len(t) THEN t[p] ELSE 0
RECURSIVE SkipSp(_, _), Digs(_, _), DropZ(_), DropTZ(_), ToNat(_)
SkipSp(t, p) == IF Sp(At(t, p)) THEN SkipSp(t, p + 1) ELSE p
Digs(t, p) == IF Digit(At(t, p)) THEN Digs(t, p + 1) ELSE p
DropZ(d) == IF d # <<>> /\ d[1] = 48 THEN DropZ(Tail(d)) ELSE d
DropTZ(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN DropTZ(SubSeq(d, 1, Len(d) - 1)) ELSE d
ToNat(d) == IF d = <<>> THEN 0 ELSE IF Len(d) > 7 THEN 10000000 ELSE 10 * ToNat(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
NumLe(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLe(a, b)
LongMax == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
LongMin == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
IntMax == <<50,49,52,55,52,56,51,54,52,55>>
IntMin == <<50,49,52,55,52,56,51,54,52,56>>
UMax == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
(* the decimal integer a text starts with: [ok, neg, d] *)
Integer(t) ==
  LET p == SkipSp(t, 1)
      q == IF At(t, p) \in {43, 45} THEN p + 1 ELSE p
      e == Digs(t, q)
      d == DropZ(SubSeq(t, q, e - 1))
  IN [ok |-> e > q, neg |-> At(t, p) = 45 /\ d # <<>>, d |-> d]
Text10(n) == IF n.d = <<>> THEN <<48>> ELSE IF n.neg THEN <<45>> \o n.d ELSE n.d
InRange(n, lo, hi) == NumLe(n.d, IF n.neg THEN lo ELSE hi)
(* the floating point number a text starts with *)
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
WordAt(t, p, w) == \A i \in 1..Len(w) : Lower(At(t, p + i - 1)) = w[i]
INF == <<105, 110, 102>>
NAN == <<110, 97, 110>>
Real(t) ==
  LET p == SkipSp(t, 1)
      neg == At(t, p) = 45
      q == IF At(t, p) \in {43, 45} THEN p + 1 ELSE p
      a == Digs(t, q)
      f == IF At(t, a) = 46 THEN Digs(t, a + 1) ELSE a
      int == SubSeq(t, q, a - 1)
      frac == IF f > a THEN SubSeq(t, a + 1, f - 1) ELSE <<>>
      some == int # <<>> \/ frac # <<>>
      y == IF At(t, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1
      hasE == At(t, f) \in {69, 101} /\ Digit(At(t, y))
      x == IF hasE THEN ToNat(DropZ(SubSeq(t, y, Digs(t, y) - 1))) ELSE 0
      all == int \o frac
      lead == Len(all) - Len(DropZ(all))
      ds == DropTZ(DropZ(all))
  IN [kind |-> IF WordAt(t, q, INF) THEN "inf" ELSE IF WordAt(t, q, NAN) THEN "nan"
              ELSE IF At(t, q) = 48 /\ Lower(At(t, q + 1)) = 120 THEN "hex" ELSE IF some THEN "dec" ELSE "none",
      neg |-> neg, ds |-> ds, e |-> IF ds = <<>> THEN 0 ELSE Len(int) - lead + (IF hasE /\ At(t, f + 1) = 45 THEN -x ELSE x)]
Same(a, b) == a.kind = b.kind /\ a.neg = b.neg /\ a.ds = b.ds /\ a.e = b.e
(* ---- transfers ---- *)
RECURSIVE Xfer(_, _, _)
(* the outcome of an exact-size transfer of l bytes of which `done` are already moved: each entry of the script is one call of the
   I/O function: n > 0: moves min(n, left); 0: end of file; -1: interrupted; anything else: an error *)
Xfer(l, done, sc) ==
  IF done = l THEN [rc |-> 0, n |-> l, eof |-> FALSE]
  ELSE IF sc = <<>> THEN [rc |-> 0, n |-> l, eof |-> FALSE]
  ELSE CASE sc[1] > 0 -> Xfer(l, done + MinN(sc[1], l - done), Tail(sc))
         [] sc[1] = 0 -> [rc |-> -1, n |-> done, eof |-> TRUE]
         [] sc[1] = -1 -> Xfer(l, done, Tail(sc))
         [] OTHER -> [rc |-> -1, n |-> done, eof |-> FALSE]
RECURSIVE Naps(_, _)
(* the naps an interrupted sleep is made of, given the remaining times reported by the interruptions *)
Naps(n, sc) == IF sc = <<>> \/ sc[1] = 0 THEN <<n>> ELSE <<n>> \o Naps(sc[1], Tail(sc))
R(x) == {[s |-> 0, r |-> x]}
Data(o) == [i \in 1..o.l |-> (i * 7 + o.l) % 251]
Do(s, o) ==
  CASE o.op = "strtok" -> R([rc |-> 0, n |-> Len(Pieces(o.s, Range(o.d))), tv |-> Pieces(o.s, Range(o.d)), live |-> 0])
    [] o.op = "tokenize" -> R(IF o.n = 0 THEN [rc |-> -1, tv |-> <<>>] ELSE [rc |-> 0, tv |-> Take(Pieces(o.s, Range(o.d)), o.n - 1)])
    [] o.op = "trim" -> R([s |-> TrimBlank(o.s)])
    [] o.op = "lcpy" -> R([rc |-> IF Fits(o.s, o.n) THEN 0 ELSE -1, s |-> Held(o.s, o.n)])
    [] o.op = "lcat" -> R([rc |-> IF Len(o.d) + Len(o.s) < o.n THEN 0 ELSE -1, s |-> IF Len(o.d) >= o.n THEN NIL ELSE Held(o.d \o o.s, o.n)])
    [] o.op = "printf" -> LET t == Fmt(o.kind, o.s, o.k) IN
                          R(IF t = NIL THEN [rc |-> -1] ELSE IF Fits(t, o.n) THEN [rc |-> 0, s |-> t] ELSE [rc |-> -1, s |-> Held(t, o.n)])
    [] o.op = "path" -> LET t == Fmt(o.kind, o.s, o.k) IN R(IF t = NIL \/ ~Fits(t, o.n) THEN [rc |-> -1] ELSE [rc |-> 0, s |-> Collapse(t, o.sep)])
    [] o.op = "strndup" -> R(IF o.n > Len(o.s) THEN [s |-> NIL, live |-> 0] ELSE [s |-> Take(o.s, o.n), live |-> 0])
    [] o.op = "strdup" -> R([s |-> o.s, live |-> 0])
    [] o.op = "memdup" -> R([s |-> o.s, live |-> 0])
    [] o.op = "sstrncpy" -> R([s |-> Take(o.s, o.n)])
    [] o.op = "chr" -> R([blank |-> Blank(o.c), nl |-> o.c \in {10, 13}])
    [] o.op = "blankstr" -> R([v |-> \A i \in 1..Len(o.s) : Blank(o.s[i])])
    [] o.op = "isbin" -> R([v |-> \E i \in 1..o.n : o.s[i] > 127])
    [] o.op \in {"atol", "atoi", "atoumax"} ->
       LET n == Integer(o.s)
           ok == /\ n.ok
                 /\ CASE o.op = "atol" -> InRange(n, LongMin, LongMax) [] o.op = "atoi" -> InRange(n, IntMin, IntMax) [] OTHER -> ~n.neg /\ InRange(n, <<>>, UMax)
       IN R([rc |-> IF ok THEN 0 ELSE -1, v |-> IF ok THEN Text10(n) ELSE NIL, errno |-> o.e])
    [] o.op = "atof" ->
       LET n == Real(o.s)
           bad == n.kind = "none" \/ (n.kind = "dec" /\ n.ds # <<>> /\ (n.e > 309 \/ n.e < -330))
           open == n.kind = "hex" \/ (n.kind = "dec" /\ n.ds # <<>> /\ ~bad /\ (n.e > 307 \/ n.e < -300))
           val == IF "r" \in DOMAIN o THEN
                  (IF n.kind # "dec" \/ Len(n.ds) > 15 THEN Real(o.r.v).kind = n.kind /\ (n.kind = "inf" => Real(o.r.v).neg = n.neg) ELSE Same(Real(o.r.v), n)) ELSE FALSE
       IN R(IF bad THEN [rc |-> -1, v |-> NIL, errno |-> o.e]
            ELSE IF open \/ (val /\ o.r.rc = 0 /\ o.r.errno = o.e) THEN o.r ELSE [rc |-> 0, number |-> n, errno |-> o.e])
    [] o.op = "io" -> LET x == Xfer(o.l, 0, o.sc) IN
         R([rc |-> x.rc, n |-> IF o.np THEN x.n ELSE -7, eof |-> IF o.ep THEN (IF x.eof THEN 1 ELSE 0) ELSE -7, moved |-> SubSeq(Data(o), 1, x.n)])
    [] o.op = "read" -> LET x == Xfer(o.l, 0, o.sc) IN R([rc |-> IF x.rc = 0 \/ x.eof THEN x.n ELSE -1, moved |-> SubSeq(Data(o), 1, x.n)])
    [] o.op = "write" -> LET x == Xfer(o.l, 0, o.sc) IN R([rc |-> IF x.rc = 0 THEN o.l ELSE -1, moved |-> SubSeq(Data(o), 1, x.n)])
    [] o.op = "sleep" -> R([rc |-> 0, naps |-> Naps(o.n, o.sc)])
    [] o.op = "longsleep" -> R([rc |-> 0, naps |-> <<o.n>>])
    [] o.op = "load" -> R(IF o.where # "file" THEN [rc |-> IF o.where = "null" THEN 0 ELSE -1, s |-> IF o.where = "null" THEN <<>> ELSE NIL, live |-> 0, fds |-> 0]
                          ELSE IF o.n > 0 /\ Len(o.s) > o.n THEN [rc |-> -1, s |-> NIL, live |-> 0, fds |-> 0]
                          ELSE [rc |-> 0, s |-> o.s, live |-> 0, fds |-> 0])
    [] o.op = "dump" -> R(IF o.where # "file" THEN [rc |-> IF o.s = <<>> /\ o.where = "full" THEN 0 ELSE -1, s |-> NIL, fds |-> 0] ELSE [rc |-> 0, s |-> o.s, fds |-> 0])
    [] o.op = "savepid" -> R([rc |-> IF o.where = "file" THEN 0 ELSE -1, ok |-> o.where = "file", fds |-> 0])
    [] OTHER -> {}
====
