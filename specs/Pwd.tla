---- MODULE Pwd ----
(* Password stores.  The source is a text of lines "user:password[:opaque]"; '#' starts a comment line; lines of 255 or more characters
   and lines without a user or a password are not records; the first record of a user counts.
   State: m in-memory?, h hashing?, n changes are notified?, src/ver the source and its version,
   db/seen the lines served from memory (NIL: none) and the version they come from. *)
EXTENDS Text
LineMax == 255
RECURSIVE Lines(_)
Lines(t) == IF t = <<>> THEN <<>> ELSE LET i == IndexOf(t, 1, 10) IN IF i = 0 THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o Lines(Drop(t, i))
RECURSIVE Split(_)
Split(l) == LET i == IndexOf(l, 1, 58) IN IF i = 0 THEN <<l>> ELSE <<SubSeq(l, 1, i - 1)>> \o Split(Drop(l, i))
None == [u |-> NIL, p |-> NIL, o |-> NIL]
Rec(l) == LET q == Split(l) IN
  IF l = <<>> \/ Len(l) >= LineMax \/ l[1] = 35 \/ Len(q) < 2 THEN None
  ELSE IF q[1] = <<>> \/ q[2] = <<>> THEN None
  ELSE [u |-> q[1], p |-> q[2], o |-> IF Len(q) < 3 THEN NIL ELSE IF q[3] = <<>> THEN NIL ELSE q[3]]
(* the records a source stands for *)
Recs(t) == SelectSeq([i \in 1..Len(Lines(t)) |-> Rec(Lines(t)[i])], LAMBDA x : x # None)
Find(rs, u) == IF \E i \in 1..Len(rs) : rs[i].u = u THEN rs[CHOOSE i \in 1..Len(rs) : rs[i].u = u /\ \A j \in 1..i - 1 : rs[j].u # u] ELSE None
(* the hash used by the drivers: four letters *)
H(p) == [i \in 1..4 |-> 97 + (FoldLeft(LAMBDA a, c : (a * 7 + c + i) % 9973, 11 * i, p) % 26)]
Init0 == [on |-> FALSE, m |-> FALSE, h |-> FALSE, n |-> FALSE, src |-> <<>>, ver |-> 1, db |-> <<None>>, seen |-> 0]
NoDb == <<None>>
Inv(s) == s.m \/ s.db = NoDb
R(s, r) == {[s |-> s, r |-> r]}
Ok == [rc |-> 0]
(* what an access finds: the set of <<state, records or NoDb when there is no source, whether the source was opened>>;
   once in memory, the source is left alone until it changes *)
Look(s, f) ==
  IF ~s.m THEN {<<s, IF f = "open" THEN NoDb ELSE Recs(s.src), 1>>}
  ELSE LET changed == s.n /\ f # "stat" /\ s.ver # s.seen
           new == [s EXCEPT !.db = Recs(s.src), !.seen = IF changed THEN s.ver ELSE s.seen]
           keep == {<<s, s.db, 0>>}
           load == IF f = "open" THEN {<<s, s.db, 1>>} ELSE {<<new, new.db, 1>>}
       IN IF changed THEN load ELSE IF s.db = NoDb THEN load \cup (IF f = "stat" /\ s.n THEN keep ELSE {}) ELSE keep
Do(s, o) ==
  CASE o.op = "new" -> R([on |-> TRUE, m |-> o.m, h |-> o.h, n |-> o.n, src |-> <<>>, ver |-> 1, db |-> NoDb, seen |-> 0], Ok)
    [] o.op = "bad" -> R(s, [rc |-> -1, live |-> 0])        \* a store which cannot be: a resource or a callback missing, a hash without length, a name too long
    [] o.op = "src" -> R([s EXCEPT !.src = o.t, !.ver = @ + 1], Ok)
    [] ~s.on -> R(s, [rc |-> -9])
    [] o.op = "term" -> R([Init0 EXCEPT !.src = s.src, !.ver = s.ver], [rc |-> 0, live |-> 0, open |-> 0])
    [] o.op = "retr" -> {LET e == IF q[2] = NoDb THEN None ELSE Find(q[2], o.u) IN
          [s |-> q[1], r |-> [rc |-> IF e = None THEN -1 ELSE 0, u |-> e.u, p |-> e.p, o |-> e.o, open |-> 0, tries |-> q[3]]] : q \in Look(s, o.f)}
    [] o.op = "auth" -> {LET e == IF q[2] = NoDb THEN None ELSE Find(q[2], o.u) IN
          [s |-> q[1], r |-> [rc |-> IF e # None /\ e.p = (IF s.h THEN H(o.p) ELSE o.p) THEN 0 ELSE -1, open |-> 0, tries |-> q[3]]] : q \in Look(s, o.f)}
====
