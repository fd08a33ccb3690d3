---- MODULE Carpal ----
(* The flow control macros.  A program is a sequence of statements [p, f, pos, sh, x, kind, line]: prefix (severity, "con", "nop"), form,
   position (2: a statement of its own; otherwise the controlled statement of "if (a) ...; else other"), shape and text of the tested
   expression, kind of the message, line.  Executing it gives the way out, the value, what was evaluated and in which order, the messages,
   and the error code at the end. *)
EXTENDS Text
L == INSTANCE Log
Levels == <<"emerg", "alert", "crit", "err", "warn", "notice", "info", "dbg">>
LevOf(p) == CHOOSE i \in 1..8 : Levels[i] = p
Leave == {"return_if", "return_ifm", "return_sif", "return_sifm", "goto_if", "err_if", "err_ifm", "err_sif", "err_sifm", "err_rcif", "die_if"}
Cond == Leave \cup {"if", "ifm", "ifb"}
OwnMsg == {"u", "err", "ifm", "return_ifm", "return_sifm", "err_ifm", "err_sifm", "die"}
WithErrno == {"return_sif", "return_sifm", "err_sif", "err_sifm"}
(* shapes of the expression over the value v: how C turns it into a truth value *)
Truth(sh, v) == CASE sh \in {"int", "and", "ptr", "long", "dbl"} -> v # 0
                  [] sh = "eq" -> v = 5
                  [] sh = "sel" -> v = 0
ErrnoIs == <<101, 114, 114, 110, 111, 58, 32>>      \* "errno: "
Silent(st, o) == st.p = "nop" \/ (st.p = "dbg" /\ ~o.dbg)
(* the message of statement i when the error code is e (its text et) *)
MsgOf(o, st, i, en) ==
  LET own == st.f \in OwnMsg
      kind == IF own THEN st.kind ELSE "s"
      txt == IF st.f = "strerror" THEN ErrnoIs \o Dec(o.es[i]) \o <<32, 40>> \o Take(o.ets[i], 255) \o <<41>> ELSE IF own THEN o.s ELSE st.x
      er == IF st.f \in WithErrno THEN en ELSE 0
      et == IF er = 0 THEN <<>> ELSE o.ets[i]
  IN IF st.p = "con" THEN [ev |-> <<>>, out |-> (CHOOSE w \in L!Do(L!Init0, [op |-> "con", err |-> er, et |-> et, e0 |-> en, kind |-> kind, s |-> txt, n |-> o.n]) : TRUE).r.out]
     ELSE LET lev == IF st.f \in {"die", "die_if"} THEN 2 ELSE LevOf(st.p) - 1
              w == CHOOSE w \in L!Write([L!Init0 EXCEPT !.h = o.hook], [lev |-> lev, fac |-> o.fac, ctx |-> lev # 6, err |-> er, et |-> et, e0 |-> en, kind |-> kind,
                     s |-> txt, n |-> o.n, file |-> <<102, 46, 99>>, line |-> o.line, func |-> o.fn]) : TRUE
          IN [ev |-> w.r.ev, out |-> <<>>]
Logged(o, st, i, m) ==
  IF Silent(st, o) THEN m
  ELSE LET x == MsgOf(o, st, i, m.en) IN
       [m EXCEPT !.ev = @ \o x.ev, !.out = @ \o x.out, !.tr = @ \o (IF st.f \in OwnMsg /\ st.kind \in {"s", "sd"} THEN <<300 + i>> ELSE <<>>)]
Step(o, i, m) ==
  LET st == o.prog[i] IN
  IF st.pos # 2 /\ o.as[i] = 0 THEN [m EXCEPT !.tr = @ \o <<200 + i>>]
  ELSE IF st.f \in {"u", "strerror"} THEN Logged(o, st, i, m)
  ELSE IF st.f = "err" THEN [Logged(o, st, i, m) EXCEPT !.path = "err"]
  ELSE IF st.f = "die" THEN [Logged(o, st, i, m) EXCEPT !.path = "exit", !.val = o.rs[i]]
  ELSE LET e == [m EXCEPT !.tr = @ \o <<i>>, !.en = o.es[i]]
       IN IF ~Truth(st.sh, o.vs[i]) THEN e
          ELSE LET g == Logged(o, st, i, e) IN
               CASE st.f \in {"if", "ifm"} -> g
                 [] st.f = "ifb" -> [g EXCEPT !.tr = @ \o <<100 + i>>]
                 [] st.f \in {"return_if", "return_ifm", "return_sif", "return_sifm"} -> [g EXCEPT !.tr = @ \o <<400 + i>>, !.path = "ret", !.val = o.rs[i]]
                 [] st.f = "goto_if" -> [g EXCEPT !.path = "gt"]
                 [] st.f = "err_rcif" -> [g EXCEPT !.tr = @ \o <<400 + i>>, !.path = "err", !.val = o.rs[i]]
                 [] st.f = "die_if" -> [g EXCEPT !.path = "exit", !.val = 1]
                 [] OTHER -> [g EXCEPT !.path = "err"]
RECURSIVE Run(_, _, _)
Run(o, i, m) == IF i > Len(o.prog) \/ m.path # "end" THEN m ELSE Run(o, i + 1, Step(o, i, m))
Start(o) == [path |-> "end", val |-> 0, tr |-> <<>>, ev |-> <<>>, out |-> <<>>, en |-> o.e0]
Call(o) == Run(o, 1, Start(o))
Init0 == 0
Do(s, o) ==
  CASE o.op = "call" -> LET m == Call(o) IN {[s |-> s, r |-> [path |-> m.path, val |-> m.val, tr |-> m.tr, ev |-> m.ev, out |-> m.out, e |-> IF m.path = "exit" THEN -1 ELSE m.en]]}
    [] o.op = "once" -> {[s |-> s, r |-> [n |-> MinN(o.n, 1)]]}
    [] o.op = "free" -> {[s |-> s, r |-> [calls |-> IF o.n = 0 THEN 0 ELSE 1, nul |-> TRUE, arg |-> o.n # 0]]}
    [] o.op = "close" -> {[s |-> s, r |-> [shut |-> o.n # 0, nul |-> TRUE]]}
    [] o.op = "minmax" -> {[s |-> s, r |-> [min |-> MinN(o.a, o.b), max |-> MaxN(o.a, o.b), lo |-> 1 + MinN(o.a, o.b) * 2, hi |-> 1 + MaxN(o.a, o.b) * 2]]}
    [] o.op = "tsub" -> LET d == o.b - o.d IN {[s |-> s, r |-> [sec |-> o.a - o.c - (IF d < 0 THEN 1 ELSE 0), usec |-> IF d < 0 THEN d + 1000000 ELSE d]]}
    [] o.op = "cpy" -> {[s |-> s, r |-> [d |-> Take(o.t, 7) \o <<0>> \o Rep(0, 7 - MinN(7, Len(o.t)))]]}
    [] OTHER -> {}
Inv(s) == TRUE
====
