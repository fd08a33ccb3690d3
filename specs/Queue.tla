---- MODULE Queue ----
(* Intrusive lists, tail queues and circular queues (include/toolbox/queue.h): a sequence of distinct elements. *)
EXTENDS Integers, Sequences, FiniteSets
Init0 == [kind |-> "none", q |-> <<>>]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Els(q) == {q[i] : i \in 1..Len(q)}
Pos(q, e) == CHOOSE i \in 1..Len(q) : q[i] = e
Back(s) == IF s.kind = "list" THEN <<>> ELSE Rev(s.q)
First(q) == IF q = <<>> THEN 0 ELSE q[1]
Last(s) == IF s.kind = "list" \/ s.q = <<>> THEN 0 ELSE s.q[Len(s.q)]
Obs(s, vis) == [fwd |-> s.q, back |-> Back(s), first |-> First(s.q), last |-> Last(s), empty |-> s.q = <<>>,
                links |-> TRUE, visited |-> vis]
Ret(s, q) == LET t == [s EXCEPT !.q = q] IN {[s |-> t, r |-> Obs(t, <<>>)]}
Ins(q, i, e) == SubSeq(q, 1, i) \o <<e>> \o SubSeq(q, i + 1, Len(q))
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
(* every operation with its precondition: inserted elements are not queued, anchors and victims are *)
Can(s, o) ==
  CASE o.op = "new" -> TRUE
    [] o.op = "head" -> o.e \notin Els(s.q)
    [] o.op = "tail" -> o.e \notin Els(s.q) /\ s.kind # "list"
    [] o.op \in {"after", "before"} -> o.e \notin Els(s.q) /\ o.at \in Els(s.q)
    [] o.op = "replace" -> s.kind = "list" /\ o.e \notin Els(s.q) /\ o.at \in Els(s.q)
    [] o.op = "remove" -> o.e \in Els(s.q)
    [] o.op = "sweep" -> s.kind # "circleq"
    [] o.op = "rsweep" -> s.kind = "tailq"
    [] OTHER -> FALSE
Do(s, o) ==
  IF ~Can(s, o) THEN {} ELSE
  CASE o.op = "new"     -> LET t == [kind |-> o.kind, q |-> <<>>] IN {[s |-> t, r |-> Obs(t, <<>>)]}
    [] o.op = "head"    -> Ret(s, <<o.e>> \o s.q)
    [] o.op = "tail"    -> Ret(s, Append(s.q, o.e))
    [] o.op = "after"   -> Ret(s, Ins(s.q, Pos(s.q, o.at), o.e))
    [] o.op = "before"  -> Ret(s, Ins(s.q, Pos(s.q, o.at) - 1, o.e))
    [] o.op = "replace" -> Ret(s, [s.q EXCEPT ![Pos(s.q, o.at)] = o.e])
    [] o.op = "remove"  -> Ret(s, Del(s.q, Pos(s.q, o.e)))
    (* safe traversal removing the elements of parity o.par on the way: everything is visited once, in order *)
    [] o.op = "sweep"   -> LET t == [s EXCEPT !.q = SelectSeq(s.q, LAMBDA x : x % 2 # o.par)]
                           IN {[s |-> t, r |-> Obs(t, s.q)]}
    [] o.op = "rsweep"  -> LET t == [s EXCEPT !.q = SelectSeq(s.q, LAMBDA x : x % 2 # o.par)]
                           IN {[s |-> t, r |-> Obs(t, Rev(s.q))]}
Inv(s) == Cardinality(Els(s.q)) = Len(s.q)
====
