---- MODULE Tests ----
(* The test runner (srcs/toolbox/test.c): suites and cases with dependencies, run in separate processes or directly.
   Case behaviours: 0 returns success, 1 returns failure, 2 killed by a signal, 3 aborts, 4 and 5 leave with another status,
   6 and 10 leave with status 0, 7 returns some other value, 9 slow success, 11 success after a failing child of its own,
   12 spoils the memory of its process and succeeds, 13 succeeds only in unspoilt memory, 14 interrupts the runner. *)
EXTENDS Text
Passes(b) == b \in {0, 6, 9, 10, 11, 12, 13}
(* statuses 0 pass, 1 fail, 2 aborted, 3 skipped, 4 anything else *)
Verdicts(b) == IF Passes(b) THEN {0} ELSE IF b = 1 THEN {1} ELSE IF b \in {2, 3} THEN {2} ELSE 1..4
(* dependency graphs: D[i] is the set of objects i depends on, 0 an object that does not exist *)
RECURSIVE Reach(_, _)
Reach(D, S) == LET N == {i \in DOMAIN D : D[i] \subseteq S} IN IF N = S THEN S ELSE Reach(D, N)
Sound(D) == Reach(D, {}) = DOMAIN D
----
(* One run of a set of cases as a scheduler: c.D dependencies, c.b behaviours, c.p the bound (0: none). *)
Idle == [run |-> {}, done |-> {}]
DepsDone(c, q, i) == \A d \in c.D[i] : d \in q.done
Wanted(c, ok, i) == \A d \in c.D[i] : ok[d]
CanStart(c, q, i) == i \notin q.run \cup q.done /\ DepsDone(c, q, i) /\ (c.p > 0 => Cardinality(q.run) < c.p)
Start(q, i) == [q EXCEPT !.run = @ \cup {i}]
End(q, i) == [run |-> q.run \ {i}, done |-> q.done \cup {i}]
----
Init0 == [ts |-> <<>>]
NS(s) == Len(s.ts)
CaseD(s, i) == [j \in 1..Len(s.ts[i].cs) |-> s.ts[i].cs[j].deps]
SuiteD(s) == [i \in 1..NS(s) |-> s.ts[i].deps]
Runnable(s) == Sound(SuiteD(s)) /\ \A i \in 1..NS(s) : Sound(CaseD(s, i))
Has(s, i, j) == i \in 1..NS(s) /\ j \in 1..Len(s.ts[i].cs)
----
(* A recorded run: log of starts (i*16+j) and ends (negative), statuses. *)
St(x) == (IF x < 0 THEN -x ELSE x) \div 16
Cs(x) == (IF x < 0 THEN -x ELSE x) % 16
(* all cases at once: the graph in which a case also depends on every case of the suites its suite depends on *)
Ids(s) == {i * 16 + j : i \in 1..NS(s), j \in 1..15} \cap {x \in 1..1000 : Has(s, x \div 16, x % 16)}
AllDeps(s) == [x \in Ids(s) |-> {(x \div 16) * 16 + d : d \in s.ts[x \div 16].cs[x % 16].deps} \cup {y \in Ids(s) : (y \div 16) \in s.ts[x \div 16].deps}]
(* fold the log through the scheduler; skipped and unstartable cases count as completed from the beginning *)
RECURSIVE Follow(_, _, _)
Follow(c, q, log) ==
  IF log = <<>> THEN q.run = {}
  ELSE LET x == log[1] IN
    IF x > 0 THEN x \in DOMAIN c.D /\ CanStart(c, q, x) /\ Follow(c, Start(q, x), Tail(log))
    ELSE -x \in q.run /\ Follow(c, End(q, -x), Tail(log))
Count(seq, v) == Cardinality({i \in DOMAIN seq : seq[i] = v})
Tally(sts) == <<Len(sts), Count(sts, 0), Count(sts, 1), Count(sts, 2), Count(sts, 3)>>
Legal(s, o, r) ==
  LET su == r.su
      n == NS(s)
      Started(x) == \E i \in DOMAIN r.log : r.log[i] = x
      Stat(x) == su[x \div 16].cs[x % 16]
      SOk(i) == \A d \in s.ts[i].deps : su[d].st = 0
      Ready(x) == SOk(x \div 16) /\ \A d \in s.ts[x \div 16].cs[x % 16].deps : su[x \div 16].cs[d] = 0
      B(x) == s.ts[x \div 16].cs[x % 16].b
      never == {x \in Ids(s) : ~Started(x)}
  IN /\ Len(su) = n /\ ~r.bad /\ r.left = 0
     /\ \A i \in 1..n : Len(su[i].cs) = Len(s.ts[i].cs)
     (* every case: skipped exactly when something it depends on did not pass, else run exactly once and reported as it did *)
     /\ \A x \in Ids(s) :
          /\ Count(r.log, x) <= 1
          /\ IF ~Ready(x) THEN ~Started(x) /\ Stat(x) = 3
             ELSE \/ Started(x) /\ Stat(x) \in Verdicts(B(x))
                  \/ Started(x) /\ o.fault = "chld" /\ Stat(x) \in {1, 2, 4}
                  \/ ~Started(x) /\ o.fault = "fork" /\ Stat(x) \in {1, 2, 4}
     /\ o.fault = "fork" => Cardinality({x \in never : Ready(x)}) <= 1
     (* order and bound *)
     /\ Follow([D |-> AllDeps(s), p |-> IF o.serial THEN 1 ELSE o.p], [run |-> {}, done |-> never], r.log)
     /\ (o.p > 0 /\ ~o.serial) => r.maxp <= o.p
     /\ o.serial => r.maxp = 0
     (* suites *)
     /\ \A i \in 1..n : /\ su[i].st = IF ~SOk(i) THEN 3 ELSE IF \A j \in 1..Len(su[i].cs) : su[i].cs[j] = 0 THEN 0 ELSE 1
                        /\ su[i].tot = Tally(su[i].cs)
     /\ r.tot = Tally([i \in 1..n |-> su[i].st])
     /\ r.rc = IF \A i \in 1..n : su[i].st = 0 THEN 0 ELSE -1
Refused == [rc |-> -1, log |-> <<>>, maxp |-> 0, left |-> 0, bad |-> FALSE, tot |-> <<0, 0, 0, 0, 0>>, su |-> <<>>]
Rc(s, n) == {[s |-> s, r |-> [rc |-> n]]}
Do(s, o) ==
  CASE o.op = "new" -> {[s |-> Init0, r |-> [rc |-> 0, left |-> 0]]}
    [] o.op = "suite" -> IF NS(s) < 4 THEN Rc([s EXCEPT !.ts = Append(@, [deps |-> {}, cs |-> <<>>])], 0) ELSE Rc(s, -9)
    [] o.op = "case" -> IF o.i \in 1..NS(s) /\ Len(s.ts[o.i].cs) < 8 THEN Rc([s EXCEPT !.ts[o.i].cs = Append(@, [b |-> o.b, deps |-> {}])], 0) ELSE Rc(s, -9)
    [] o.op = "cdep" -> IF Has(s, o.i, o.j) THEN Rc([s EXCEPT !.ts[o.i].cs[o.j].deps = @ \cup {o.d}], 0) ELSE Rc(s, -9)
    [] o.op = "sdep" -> IF o.i \in 1..NS(s) THEN Rc([s EXCEPT !.ts[o.i].deps = @ \cup {o.d}], 0) ELSE Rc(s, -9)
    [] o.op = "run" ->
         IF "r" \notin DOMAIN o THEN {[s |-> s, r |-> [rc |-> 0]]}
         ELSE IF o.fault = "int" THEN (IF o.r.rc = -1 /\ o.r.left = 0 THEN {[s |-> s, r |-> o.r]} ELSE {})
              ELSE IF ~Runnable(s) THEN {[s |-> s, r |-> Refused]} ELSE IF Legal(s, o, o.r) THEN {[s |-> s, r |-> o.r]} ELSE {}
    [] OTHER -> {}
Inv(s) == NS(s) <= 4
====
