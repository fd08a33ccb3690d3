---- MODULE Repl ----
(* The functions of srcs/missing, which stand in for standard ones on systems that lack those: pattern matching, tokenising,
   bounded copies, calendar time, temporary files, daemons and the last resort logger. *)
EXTENDS Text
(* ---- fnmatch; the flags are bits: 1 no escape, 2 path name, 4 period, 8 case fold, 16 leading directory *)
Bit(f, b) == (f \div b) % 2 = 1
FoldC(c, f) == IF Bit(f, 8) /\ c \in 65..90 THEN c + 32 ELSE c
Lit(c) == [k |-> "lit", c |-> c]
(* the element list of a bracket expression from position j: ranges <<lo, hi>>, end = position of "]" (0: none) *)
RECURSIVE Elems(_, _, _, _)
Elems(p, j, first, ne) ==
  LET None == [rs |-> {}, end |-> 0]
      E1(i) == IF i > Len(p) THEN <<0, 0>>                               \* an element: its character and what follows
               ELSE IF p[i] = 92 /\ ~ne THEN (IF i = Len(p) THEN <<0, 0>> ELSE <<p[i + 1], i + 2>>) ELSE <<p[i], i + 1>>
  IN IF j > Len(p) THEN None
     ELSE IF p[j] = 93 /\ ~first THEN [rs |-> {}, end |-> j]
     ELSE IF p[j] = 91 /\ j < Len(p) /\ p[j + 1] \in {58, 46, 61} THEN None    \* classes are not part of the replacement
     ELSE LET a == E1(j) IN
       IF a[2] = 0 THEN None
       ELSE IF a[2] < Len(p) /\ p[a[2]] = 45 /\ p[a[2] + 1] # 93
       THEN LET b == E1(a[2] + 1) IN
            IF b[2] = 0 \/ (p[a[2] + 1] = 91 /\ a[2] + 1 < Len(p) /\ p[a[2] + 2] \in {58, 46, 61}) THEN None
            ELSE LET m == Elems(p, b[2], FALSE, ne) IN [m EXCEPT !.rs = @ \cup {<<a[1], b[1]>>}]
       ELSE LET m == Elems(p, a[2], FALSE, ne) IN [m EXCEPT !.rs = @ \cup {<<a[1], a[1]>>}]
RECURSIVE Items(_, _, _)
Items(p, i, ne) ==
  IF i > Len(p) THEN <<>>
  ELSE CASE p[i] = 63 -> <<[k |-> "any"]>> \o Items(p, i + 1, ne)
         [] p[i] = 42 -> <<[k |-> "star"]>> \o Items(p, i + 1, ne)
         [] p[i] = 91 ->
              LET neg == i < Len(p) /\ p[i + 1] \in {33, 94}
                  e == Elems(p, IF neg THEN i + 2 ELSE i + 1, TRUE, ne)
              IN IF e.end = 0 THEN <<[k |-> "bad"]>> ELSE <<[k |-> "set", neg |-> neg, rs |-> e.rs]>> \o Items(p, e.end + 1, ne)
         [] p[i] = 92 /\ ~ne -> IF i = Len(p) THEN <<[k |-> "bad"]>> ELSE <<Lit(p[i + 1])>> \o Items(p, i + 2, ne)
         [] OTHER -> <<Lit(p[i])>> \o Items(p, i + 1, ne)
Case1(c) == IF c \in 65..90 THEN 1 ELSE IF c \in 97..122 THEN 2 ELSE 3
(* patterns whose meaning the standard leaves open *)
Open(it, f) == \E i \in 1..Len(it) :
  \/ it[i].k = "bad"
  \/ it[i].k = "set" /\ (\E r \in it[i].rs :
        \/ r[1] > r[2]
        \/ (Bit(f, 8) /\ r[1] # r[2] /\ Case1(r[1]) # Case1(r[2]))
        \/ (Bit(f, 8) /\ r[1] # r[2] /\ Case1(r[1]) = 3 /\ r[1] < 97 /\ r[2] > 64)
        \/ (Bit(f, 2) /\ r[1] <= 47 /\ 47 <= r[2]))
Member(x, c, f) == x.neg # (\E r \in x.rs : FoldC(r[1], f) <= FoldC(c, f) /\ FoldC(c, f) <= FoldC(r[2], f))
(* the items which may come next once the text before position j is used up: sets, so that stars do not multiply the work *)
Dot(t, j, f) == Bit(f, 4) /\ j <= Len(t) /\ t[j] = 46 /\ (j = 1 \/ (Bit(f, 2) /\ t[j - 1] = 47))      \* a period only a period matches
Close(it, S, d) == IF d THEN S ELSE S \cup {k \in 1..Len(it) + 1 : \E i \in S : i < k /\ \A m \in i..k - 1 : it[m].k = "star"}
Step(it, S, c, d, f) ==
  LET sl == Bit(f, 2) /\ c = 47 IN
  {i \in S : i <= Len(it) /\ it[i].k = "star" /\ ~d /\ ~sl} \cup
  {i + 1 : i \in {i \in S : i <= Len(it) /\ CASE it[i].k = "lit" -> FoldC(c, f) = FoldC(it[i].c, f)
                                             [] it[i].k = "any" -> ~d /\ ~sl
                                             [] it[i].k = "set" -> ~d /\ ~sl /\ Member(it[i], c, f)
                                             [] OTHER -> FALSE}}
RECURSIVE Match(_, _, _, _, _)
Match(it, S, t, j, f) ==
  LET d == Dot(t, j, f)
      N == Close(it, S, d)
  IN \/ Len(it) + 1 \in N /\ (j > Len(t) \/ (Bit(f, 16) /\ t[j] = 47))
     \/ j <= Len(t) /\ N # {} /\ Match(it, Step(it, N, t[j], d, f), t, j + 1, f)
Matches(p, t, f) == Match(Items(p, 1, Bit(f, 1)), {1}, t, 1, f)
IsOpen(p, f) == Open(Items(p, 1, Bit(f, 1)), f)
(* ---- tokens *)
Span(t, i, D, in) == IF \E j \in i..Len(t) : Contains(D, t[j]) # in THEN CHOOSE j \in i..Len(t) : Contains(D, t[j]) # in /\ \A k \in i..j - 1 : Contains(D, t[k]) = in
                     ELSE Len(t) + 1
(* ---- calendar: days since 1 January 1970 of a civil date, m counted from 0 (any integer), d from 1 (any integer) *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Cum(y, m) == LET L == IF Leap(y) THEN 1 ELSE 0 IN
  <<0, 31, 59 + L, 90 + L, 120 + L, 151 + L, 181 + L, 212 + L, 243 + L, 273 + L, 304 + L, 334 + L>>[m + 1]
YearDays(y) == LET z == y - 1 IN 365 * (y - 1970) + (z \div 4 - z \div 100 + z \div 400) - 477
Days(y0, m0, d) == LET y == y0 + m0 \div 12 m == m0 % 12 IN YearDays(y) + Cum(y, m) + d - 1
Civil(d) ==
  LET y == CHOOSE y \in (1968 + MinN(d \div 366, d \div 365))..(1972 + MaxN(d \div 366, d \div 365)) : YearDays(y) <= d /\ d < YearDays(y + 1)
      yd == d - YearDays(y)
      m == CHOOSE m \in 0..11 : Cum(y, m) <= yd /\ (m = 11 \/ yd < Cum(y, m + 1))
  IN <<y, m, yd - Cum(y, m) + 1, (d + 4) % 7, yd>>
Gm(v) == LET mi == v[5] + v[6] \div 60
             h == v[4] + mi \div 60
             d == Days(v[1], v[2], v[3]) + h \div 24
             c == Civil(d)
         IN [d |-> d, s |-> (((h % 24) * 60 + (mi % 60)) * 60) + (v[6] % 60), tm |-> <<c[1], c[2], c[3], h % 24, mi % 60, v[6] % 60, c[4], c[5]>>]
(* ---- state: what is left to tokenise on each of four places; the files of a scratch directory *)
Init0 == [tk |-> [i \in 1..4 |-> NIL], files |-> {}]
Tail2(t, i) == IF i > Len(t) THEN NIL ELSE Drop(t, i)
Alnum(c) == Digit(c) \/ Alpha(c)
(* the letters a template offers: the run of X's which ends where the suffix starts *)
RECURSIVE RunX(_, _)
RunX(t, e) == IF e >= 1 /\ t[e] = 88 THEN 1 + RunX(t, e - 1) ELSE 0
Fits(n, t, e, k) == Len(n) = Len(t) /\ \A i \in 1..Len(t) : IF i <= e /\ i > e - k THEN Alnum(n[i]) ELSE n[i] = t[i]
DirOk(t) == LET i == IF \E x \in 1..Len(t) : t[x] = 47 THEN CHOOSE x \in 1..Len(t) : t[x] = 47 /\ \A y \in x + 1..Len(t) : t[y] # 47 ELSE 0 IN
  i = 0 \/ Take(t, i) \in {<<115, 117, 98, 47>>, <<46, 47>>}
Norm(n) == IF IsPrefixOf(<<46, 47>>, n) THEN Drop(n, 2) ELSE n
LogMax == 1023
Do(s, o) ==
  CASE o.op = "fnm" ->
         LET R(x) == [m |-> [i \in 1..32 |-> IF IsOpen(o.p, i - 1) THEN x[i] ELSE IF Matches(o.p, o.t, i - 1) THEN 1 ELSE 0]]
         IN {[s |-> s, r |-> R(IF "r" \in DOMAIN o THEN o.r.m ELSE Rep(0, 32))]}
    [] o.op = "new" -> {[s |-> Init0, r |-> [rc |-> 0]]}
    [] o.op = "tset" -> {[s |-> [s EXCEPT !.tk[o.k] = o.t], r |-> [rc |-> 0]]}
    [] o.op = "sep" ->
         LET t == s.tk[o.k] IN
         IF t = NIL THEN {[s |-> s, r |-> [t |-> NIL, rest |-> NIL]]}
         ELSE LET e == Span(t, 1, o.d, FALSE) IN
              {[s |-> [s EXCEPT !.tk[o.k] = Tail2(t, e)], r |-> [t |-> Take(t, e - 1), rest |-> Tail2(t, e)]]}
    [] o.op = "tok" ->
         LET t == s.tk[o.k] IN
         IF t = NIL THEN {[s |-> s, r |-> [t |-> NIL]]}
         ELSE LET b == Span(t, 1, o.d, TRUE)
                  e == Span(t, b, o.d, FALSE)
              IN IF b > Len(t) THEN {[s |-> [s EXCEPT !.tk[o.k] = NIL], r |-> [t |-> NIL]]}
                 ELSE {[s |-> [s EXCEPT !.tk[o.k] = Tail2(t, e)], r |-> [t |-> SubSeq(t, b, e - 1)]]}
    [] o.op \in {"lcpy", "lcat"} ->
         LET d0 == Take(o.dst, o.n) \o (IF Len(o.dst) < o.n THEN <<0>> \o Rep(81, o.n - Len(o.dst) - 1) ELSE <<>>)
             k == IF o.op = "lcpy" THEN 0 ELSE Len(o.dst)
             room == o.n - 1 - k
             w == IF room >= 0 THEN Take(d0, k) \o Take(o.src, room) \o <<0>> ELSE <<>>
         IN {[s |-> s, r |-> [rc |-> MinN(k, o.n) + Len(o.src), d |-> w \o Drop(d0, Len(w))]]}
    [] o.op = "gm" -> {[s |-> s, r |-> [d |-> Gm(o.v).d, s |-> Gm(o.v).s, tm |-> Gm(o.v).tm, tz |-> o.tz, local |-> TRUE]]}
    [] o.op = "touch" -> {[s |-> [s EXCEPT !.files = @ \cup {o.n}], r |-> [n |-> Cardinality(s.files \cup {o.n})]]}
    [] o.op = "mk" ->
         LET e == Len(o.t) - o.sl
             k == IF e >= 1 THEN RunX(o.t, e) ELSE 0
             good == e >= 1 /\ DirOk(o.t) /\ o.t[Len(o.t)] # 47
             n == IF "r" \in DOMAIN o THEN o.r.name ELSE [i \in 1..Len(o.t) |-> IF i <= e /\ i > e - k THEN 65 ELSE o.t[i]]
             taken == \E x \in s.files \cup {<<102, 105, 108, 101>>} : Fits(x, Norm(o.t), Len(Norm(o.t)) - o.sl, k)
         IN (IF good /\ Fits(n, o.t, e, k) /\ Norm(n) \notin s.files
             THEN {[s |-> [s EXCEPT !.files = @ \cup {Norm(n)}], r |-> [rc |-> 0, name |-> n, new |-> TRUE, n |-> Cardinality(s.files) + 1]]} ELSE {}) \cup
            (IF (~good \/ taken) /\ Fits(n, o.t, e, k) THEN {[s |-> s, r |-> [rc |-> -1, name |-> n, n |-> Cardinality(s.files)]]} ELSE {})
    [] o.op = "vsl" ->
         {[s |-> s, r |-> [n |-> 1, pri |-> o.pri, msg |-> Take(IF o.kind = "lit" THEN <<37, 97>> ELSE Fmt(o.kind, o.t, o.n), LogMax)]]}
    [] o.op = "daemon" ->
         {[s |-> s, r |-> IF o.nofork = 1 THEN [exit |-> 7, reports |-> 1, rc |-> -1, forked |-> FALSE, session |-> FALSE, cwd |-> 0, fds |-> 0, noleak |-> TRUE, more |-> 0]
                          ELSE [exit |-> 0, reports |-> 1, rc |-> 0, forked |-> TRUE, session |-> TRUE, cwd |-> IF o.nochdir = 1 THEN 0 ELSE 1,
                                fds |-> IF o.noclose = 1 THEN 0 ELSE 1, noleak |-> TRUE, more |-> 0]]}
    [] OTHER -> {}
Inv(s) == TRUE
====
