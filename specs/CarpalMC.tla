---- MODULE CarpalMC ----
(* All programs of up to PLen statements over four kinds of prefix, every form, position and outcome of the tests, and the laws of the
   flow control macros. *)
EXTENDS Carpal, Json, TLC
CONSTANTS PLen, Dbg
VARIABLES prog, vs, as, op
Forms(p) == IF p = "nop" THEN {"return_if", "err_if", "goto_if"} ELSE (Cond \ {"die_if"}) \cup {"u", "err", "strerror"}
PFs == {<<p, f>> : p \in {"warn", "dbg", "con"}, f \in Forms("warn")} \cup {<<"nop", f>> : f \in Forms("nop")} \cup {<<"crit", "die">>, <<"crit", "die_if">>}
St(pf, pos) == [p |-> pf[1], f |-> pf[2], pos |-> pos, sh |-> "int", x |-> <<101, 118, 40, 41>>, kind |-> "s"]
Op == [op |-> "call", prog |-> prog, vs |-> vs, as |-> as, es |-> [i \in 1..Len(prog) |-> i], ets |-> [i \in 1..Len(prog) |-> <<69, 48 + i>>],
       rs |-> [i \in 1..Len(prog) |-> 10 + i], e0 |-> 0, s |-> <<109>>, n |-> 0, hook |-> 1, fac |-> 8, dbg |-> Dbg, line |-> 7, fn |-> <<116>>]
MInit == prog = <<>> /\ vs = <<>> /\ as = <<>> /\ op = Op
MNext == /\ Len(prog) < PLen
         /\ \E pf \in PFs, pos \in {1, 2}, v \in {0, 1}, a \in {0, 1} :
              /\ (pf[2] = "ifb" => pos = 2) /\ (pos = 2 => a = 1) /\ (pf[2] \in {"u", "err", "strerror", "die"} => v = 1)
              /\ prog' = Append(prog, St(pf, pos)) /\ vs' = Append(vs, v) /\ as' = Append(as, a)
         /\ op' = Op'
MSpec == MInit /\ [][MNext]_<<prog, vs, as, op>>
Emit == PrintT(ToJson([f |-> 0, o |-> op, t |-> 0]))
Evals(m) == SelectSeq(m.tr, LAMBDA x : x < 100)
Ctl(m) == SelectSeq(m.tr, LAMBDA x : x < 300 \/ x > 400)
Laws == LET m == Call(op) n == Len(prog) IN
  /\ \A i, j \in 1..Len(Evals(m)) : i < j => Evals(m)[i] < Evals(m)[j]                       \* each test at most once, in order
  /\ m.en = (IF Evals(m) = <<>> THEN 0 ELSE Evals(m)[Len(Evals(m))])                          \* the error code of the last test survives the logging
  /\ Len(m.ev) <= n /\ \A k \in 1..Len(m.ev) : m.ev[k].k = "hook"
  /\ \A k \in 1..n : LET c == Call([op EXCEPT !.prog = Take(@, k)]) IN c.path # "end" => c = m  \* nothing happens after the way out
  /\ (\A i \in 1..n : vs[i] = 0 /\ prog[i].f \notin {"u", "err", "strerror", "die"}) => m.ev = <<>> /\ m.out = <<>> /\ m.path = "end" /\ m.val = 0
  \* the prefix decides what is said, never what is done
  /\ LET q == Call([op EXCEPT !.dbg = FALSE, !.prog = [i \in 1..n |-> IF prog[i].f \in {"die", "die_if"} THEN prog[i] ELSE [prog[i] EXCEPT !.p = "dbg"]]]) IN
     q.path = m.path /\ q.val = m.val /\ q.en = m.en /\ Ctl(q) = Ctl(m) /\ q.out = <<>>
  /\ m.path = "exit" => m.ev # <<>> /\ m.ev[Len(m.ev)].n = 2
====
