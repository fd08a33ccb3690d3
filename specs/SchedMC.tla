---- MODULE SchedMC ----
(* Every schedule of every small set of cases: the steps the log of a real run is followed by, with the verdicts they lead to. *)
EXTENDS Tests, TLC
CONSTANTS N
VARIABLES c, q, ok, st, log
vars == <<c, q, ok, st, log>>
SInit == /\ c \in [D : [1..N -> SUBSET (1..N)], b : [1..N -> {0, 1}], p : 0..2]
         /\ q = Idle /\ ok = [i \in 1..N |-> FALSE] /\ st = [i \in 1..N |-> 9] /\ log = <<>>
Sane == Sound(c.D)
DoStart(i) == /\ Sane /\ CanStart(c, q, i) /\ Wanted(c, ok, i) /\ q' = Start(q, i) /\ log' = Append(log, i) /\ UNCHANGED <<c, ok, st>>
DoEnd(i) == /\ i \in q.run /\ q' = End(q, i) /\ log' = Append(log, -i)
            /\ ok' = [ok EXCEPT ![i] = Passes(c.b[i])] /\ st' = [st EXCEPT ![i] = c.b[i]] /\ UNCHANGED c
Skip(i) == /\ Sane /\ i \notin q.run \cup q.done /\ DepsDone(c, q, i) /\ ~Wanted(c, ok, i)
           /\ q' = [q EXCEPT !.done = @ \cup {i}] /\ st' = [st EXCEPT ![i] = 3] /\ UNCHANGED <<c, ok, log>>
SNext == \E i \in 1..N : DoStart(i) \/ DoEnd(i) \/ Skip(i)
SSpec == SInit /\ [][SNext]_vars /\ WF_vars(SNext)
Bound == c.p > 0 => Cardinality(q.run) <= c.p
Order == \A i \in q.run : \A d \in c.D[i] : d \in q.done /\ ok[d]
Stuck == ~ENABLED SNext
(* when nothing more can happen everything has a verdict (unless the graph has a loop), the verdicts do not depend on the schedule,
   and the log is one the acceptor follows *)
Decided == Stuck => IF Sane THEN /\ \A i \in 1..N : st[i] # 9
                                 /\ \A i \in 1..N : st[i] = IF \E d \in c.D[i] : st[d] # 0 THEN 3 ELSE c.b[i]
                                 /\ Follow(c, [run |-> {}, done |-> {i \in 1..N : st[i] = 3}], log)
                    ELSE log = <<>>
VNoLog == <<c, q, ok, st>>
====
