---- MODULE Log ----
(* Message logging: an optional hook (h: identity, 0 none; ha its argument), optional lock and unlock functions (l, u: identities with
   arguments la, ua).  Every call's deliveries and lock calls are observed as a sequence of events, each a sequence of numbers and texts
   turned into records [k, a, n, t]: kind, argument, level or priority, text. *)
EXTENDS Text
Lim == 1024
Pid == 4242
Init0 == [h |-> 0, ha |-> 0, l |-> 0, la |-> 0, u |-> 0, ua |-> 0]
Inv(s) == s.h \in 0..3 /\ s.l \in 0..2 /\ s.u \in 0..2
Label == <<<<101, 109, 103>>, <<97, 108, 114>>, <<99, 114, 116>>, <<101, 114, 114>>, <<119, 114, 110>>, <<110, 116, 99>>, <<105, 110, 102>>, <<100, 98, 103>>>>
Errno == <<91, 101, 114, 114, 110, 111, 58, 32>>     \* "[errno: "
ErrText(o) == IF o.err = 0 THEN <<>> ELSE Errno \o Dec(o.err) \o <<44, 32>> \o o.et \o <<93>>
Msg(o) == Fmt(o.kind, o.s, o.n)
Ctx(o) == Dec(Pid) \o <<58>> \o (IF o.ctx THEN o.file \o <<58>> \o Dec(o.line) \o <<58>> \o o.func ELSE <<58, 58>>)
Full(o) == <<91>> \o Label[o.lev + 1] \o <<93, 91>> \o Ctx(o) \o <<93, 32>> \o Msg(o) \o <<32>> \o ErrText(o)
Ev(k, a, n, t) == [k |-> k, a |-> a, n |-> n, t |-> t]
Lk(s) == IF s.l = 0 THEN <<>> ELSE <<Ev("lock", s.l * 10 + s.la, 0, <<>>)>>
Ul(s) == IF s.u = 0 THEN <<>> ELSE <<Ev("unlock", s.u * 10 + s.ua, 0, <<>>)>>
R(s, r) == {[s |-> s, r |-> r]}
(* errno after a call is the one before it *)
W(s, rc, o, ev) == [s |-> s, r |-> [rc |-> rc, e |-> o.e0, ev |-> ev]]
Refused(s, o) == {W(s, -1, o, <<>>), W(s, -1, o, Lk(s) \o Ul(s))}
(* the macros fix the facility (local0), the level and whether the place is shown; place of the drivers' uses *)
Mac(o) == [lev |-> o.lev, fac |-> 128, ctx |-> o.lev # 6, err |-> o.err, et |-> o.et, e0 |-> o.e0, kind |-> o.kind, s |-> o.s, n |-> o.n,
           file |-> <<102, 46, 99>>, line |-> 10, func |-> <<102, 110>>]
Write(s, o) ==
  LET m == Msg(o) t == Full(o) IN
  IF m = NIL THEN Refused(s, o)
  ELSE IF Len(m) >= Lim THEN Refused(s, o)
  ELSE IF s.h # 0 THEN IF Len(t) >= Lim THEN Refused(s, o) ELSE {W(s, 0, o, Lk(s) \o <<Ev("hook", s.h * 10 + s.ha, o.lev, t)>> \o Ul(s))}
  ELSE {W(s, 0, o, Lk(s) \o <<Ev("syslog", 0, o.fac + o.lev, t)>> \o Ul(s))}
Do(s, o) ==
  CASE o.op = "new" -> R(Init0, [rc |-> 0])
    [] o.op = "hook" -> R([s EXCEPT !.h = o.h, !.ha = o.a], [rc |-> 0, old |-> IF o.want THEN s.h ELSE -1, olda |-> IF o.want THEN s.ha ELSE -1, ev |-> Lk(s) \o Ul(s)])
    [] o.op = "lock" -> R([s EXCEPT !.l = o.h, !.la = o.a], [rc |-> 0])
    [] o.op = "unlock" -> R([s EXCEPT !.u = o.h, !.ua = o.a], [rc |-> 0])
    [] o.op = "write" -> Write(s, o)
    [] o.op = "mac" -> Write(s, Mac(o))
    [] o.op = "con" -> LET m == Msg(o) IN
         IF m = NIL THEN {[s |-> s, r |-> [rc |-> -1, e |-> o.e0, out |-> NIL]]}
         ELSE {[s |-> s, r |-> [rc |-> 0, e |-> o.e0, out |-> m \o (IF o.err = 0 THEN <<>> ELSE <<32>> \o ErrText(o)) \o <<10>>]]}
    [] o.op = "strerr" -> R(s, [rc |-> 0, t |-> Take(o.et, o.n - 1)])
====
