---- MODULE Env ----
(* Loading settings from a shell script into the process environment.  A script is a sequence of assignments
   [n, e, kind, v, ref]: name, whether it is exported, and how the value is given: "lit" (the text v), "ref" (the value of the variable
   ref, then v), "cond" (v, only when ref is set and not empty), "default" (the value of ref when set and not empty, otherwise v);
   `end` tells how it ends: "ok", "fail" (its last command fails), "syntax" (it cannot be evaluated).
   The state is the environment restricted to the names the scripts use. *)
EXTENDS Text
Names == <<<<80, 95, 65>>, <<80, 95, 66>>, <<80, 95>>, <<80, 88, 95, 65>>, <<81, 95, 65>>, <<80, 95, 65, 66>>>>     \* P_A P_B P_ PX_A Q_A P_AB
NN == Len(Names)
Init0 == [e |-> [i \in 1..NN |-> NIL]]
Inv(s) == Len(s.e) = NN
Val(e, i) == IF i = 0 \/ e[i] = NIL THEN <<>> ELSE e[i]
(* the shell: variables and which of them are exported; everything inherited is exported *)
Assign(sh, a) ==
  LET v == CASE a.kind \in {"lit", "cond"} -> a.v [] a.kind = "ref" -> Val(sh.v, a.ref) \o a.v
             [] OTHER -> IF Val(sh.v, a.ref) = <<>> THEN a.v ELSE Val(sh.v, a.ref)
      skip == a.kind = "cond" /\ Val(sh.v, a.ref) = <<>>
  IN IF skip THEN sh ELSE [v |-> [sh.v EXCEPT ![a.n] = v], x |-> [sh.x EXCEPT ![a.n] = @ \/ a.e]]
Shell(e, as) == FoldLeft(LAMBDA sh, a : Assign(sh, a), [v |-> e, x |-> [i \in 1..NN |-> e[i] # NIL]], as)
Load(e, p, as) == LET sh == Shell(e, as) IN [i \in 1..NN |-> IF sh.x[i] /\ IsPrefixOf(p, Names[i]) THEN sh.v[i] ELSE e[i]]
(* what a call that failed half way may leave: some of the variables set *)
Partial(e, f, g) == \A i \in 1..NN : g[i] \in {e[i], f[i]}
R(rc, e) == {[s |-> [e |-> e], r |-> [rc |-> rc, e |-> e, other |-> 0, fd |-> 0, kids |-> 0]]}
Do(s, o) ==
  CASE o.op = "new" -> R(0, Init0.e)
    [] o.op = "set" -> R(0, [s.e EXCEPT ![o.n] = o.v])
    [] o.op = "get" -> {[s |-> s, r |-> [rc |-> 0, v |-> s.e[o.n]]]}
    [] o.op = "load" ->     \* fault: "none", "missing" file, "null" argument, "popen" failing, "setenv" failing at its k-th call
         LET f == Load(s.e, o.p, o.as)
             obs == IF "r" \in DOMAIN o /\ "e" \in DOMAIN o.r THEN o.r.e ELSE s.e
         IN IF o.fault \in {"missing", "null", "popen"} \/ o.end # "ok" THEN R(-1, s.e)
            ELSE IF o.fault = "setenv" THEN R(0, f) \cup R(-1, IF Partial(s.e, f, obs) THEN obs ELSE s.e)
            ELSE R(0, f)
====
