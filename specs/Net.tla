---- MODULE Net ----
(* Socket addresses and socket creation (srcs/toolbox/net.c).
   The kernel is the environment: each attempt to make a socket has a planned outcome, a connection that is not immediate
   has a schedule (interruptions, completion), and time is the simulated clock the kernel advances. *)
EXTENDS Text
U == INSTANCE Uri
Lower(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
Bit(n, b) == (n \div b) % 2 = 1
RECURSIVE Value(_, _)
Value(t, i) == IF i = 0 THEN 0 ELSE Value(t, i - 1) * 10 + t[i] - 48
(* schemes: letters tcp udp sctp, optionally followed by 4 or 6; unix *)
TCP == <<116, 99, 112>>
UDP == <<117, 100, 112>>
SCTP == <<115, 99, 116, 112>>
UNIX == <<117, 110, 105, 120>>
NoMap == [ok |-> FALSE]
Map(sc) ==
  LET l == Lower(sc)
      v6 == l # <<>> /\ l[Len(l)] = 54
      base == IF l # <<>> /\ l[Len(l)] \in {52, 54} THEN SubSeq(l, 1, Len(l) - 1) ELSE l
      fam == IF v6 THEN 6 ELSE 4
  IN CASE base = TCP -> [ok |-> TRUE, fam |-> fam, type |-> 1, proto |-> 6]
       [] base = UDP -> [ok |-> TRUE, fam |-> fam, type |-> 2, proto |-> 17]
       [] base = SCTP -> [ok |-> TRUE, fam |-> fam, type |-> 1, proto |-> 132]
       [] l = UNIX -> [ok |-> TRUE, fam |-> 1, type |-> 1, proto |-> 0]
       [] OTHER -> NoMap
STAR == <<42>>
(* the host and service names the simulated resolver knows *)
NameOne == <<111, 110, 101>>
NameMulti == <<109, 117, 108, 116, 105>>
Services == { <<<<104, 116, 116, 112>>, 80>>, <<<<115, 109, 116, 112>>, 25>>, <<<<97, 108, 116>>, 8080>> }
AllDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : Digit(t[i])
(* port numbers a port text may stand for; empty when it must be refused *)
Ports(t) ==
  IF t = STAR THEN {0}
  ELSE IF AllDigits(t)
  THEN LET z == FirstNot(t, LAMBDA c : c = 48)
           d == IF z = 0 THEN <<>> ELSE Drop(t, z - 1)
       IN IF d = <<>> THEN {0, -1}          \* "0" itself: a request for any port, or refused
          ELSE IF Len(d) > 5 \/ Value(d, Len(d)) > 65535 THEN {-1} ELSE {Value(d, Len(d))}
  ELSE {x[2] : x \in {y \in Services : y[1] = t}} \cup (IF \E y \in Services : y[1] = t THEN {} ELSE {-1})
RECURSIVE Split(_, _)
Split(t, c) == LET i == U!Cut(t, {c}) IN IF i > Len(t) THEN <<t>> ELSE <<U!Pre(t, i)>> \o Split(U!Post(t, i), c)
V4(t) == LET p == Split(t, 46) IN [i \in 1..4 |-> Value(p[i], Len(p[i]))]
HexV(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
RECURSIVE HexN(_, _)
HexN(t, i) == IF i = 0 THEN 0 ELSE HexN(t, i - 1) * 16 + HexV(t[i])
(* the bytes of a run of groups "h:h:...", the last possibly a dotted quad; NIL when malformed *)
GroupOk(g) == Len(g) \in 1..4 /\ \A i \in 1..Len(g) : U!Hex(g[i])
Groups(t) ==
  IF t = <<>> THEN <<>> ELSE
  LET gs == Split(t, 58)
      n == Len(gs)
      quad == U!IPv4(gs[n])
      m == IF quad THEN n - 1 ELSE n
  IN IF \E i \in 1..m : ~GroupOk(gs[i]) THEN NIL
     ELSE [i \in 1..2 * m |-> LET v == HexN(gs[(i + 1) \div 2], Len(gs[(i + 1) \div 2])) IN IF i % 2 = 1 THEN v \div 256 ELSE v % 256] \o
          (IF quad THEN V4(gs[n]) ELSE <<>>)
V6(t) ==
  LET gap == {i \in 1..Len(t) - 1 : t[i] = 58 /\ t[i + 1] = 58}
  IN IF gap = {} THEN LET g == Groups(t) IN IF Len(g) = 16 THEN g ELSE NIL
     ELSE LET i == Min2(gap)
              a == Groups(SubSeq(t, 1, i - 1))
              b == Groups(SubSeq(t, i + 2, Len(t)))
              endq == i > 1 /\ U!IPv4(Split(SubSeq(t, 1, i - 1), 58)[Len(Split(SubSeq(t, 1, i - 1), 58))])
          IN IF a = NIL \/ b = NIL \/ endq \/ Len(a) + Len(b) > 14 THEN NIL ELSE a \o Rep(0, 16 - Len(a) - Len(b)) \o b
Last16(n) == Rep(0, 15) \o <<n>>
(* the addresses, in order of preference, a host stands for; <<>> when it cannot be resolved *)
Hosts(h, fam, passive) ==
  IF fam = 4
  THEN CASE h = STAR -> << IF passive THEN <<0, 0, 0, 0>> ELSE <<127, 0, 0, 1>> >>
         [] h = NameOne -> << <<192, 0, 2, 7>> >>
         [] h = NameMulti -> << <<10, 0, 0, 1>>, <<10, 0, 0, 2>>, <<10, 0, 0, 3>> >>
         [] U!IPv4(h) -> << V4(h) >>
         [] OTHER -> <<>>
  ELSE CASE h = STAR -> << IF passive THEN Rep(0, 16) ELSE Last16(1) >>
         [] h = NameOne -> << <<32, 1, 13, 184>> \o Rep(0, 11) \o <<7>> >>
         [] h = NameMulti -> << <<253>> \o Rep(0, 14) \o <<1>>, <<253>> \o Rep(0, 14) \o <<2>> >>
         [] V6(h) # NIL -> << V6(h) >>
         [] OTHER -> <<>>
(* the lists of candidates a URI may stand for; the empty list when it must be refused *)
Cands(uri, mode) ==
  LET p == U!Parse(uri, FALSE)
      m == IF p.ok THEN Map(p.f["scheme"]) ELSE NoMap
      C(a, port) == [fam |-> m.fam, type |-> m.type, proto |-> m.proto, ad |-> a, port |-> port]
  IN IF ~p.ok \/ ~m.ok \/ mode \notin {0, 1} THEN {<<>>}
     ELSE IF m.fam = 1
     THEN {IF p.f["path"] = <<>> \/ Len(p.f["path"]) > 107 THEN <<>> ELSE <<C(p.f["path"], 0)>>}
     ELSE LET hs == Hosts(p.f["host"], m.fam, mode = 0)
          IN {IF port = -1 \/ p.f["port"] = <<>> THEN <<>> ELSE [i \in 1..Len(hs) |-> C(hs[i], port)] : port \in IF p.f["port"] = <<>> THEN {-1} ELSE Ports(p.f["port"])} \cup
             (IF p.ok /\ ~U!Short(p) THEN {<<>>} ELSE {})
----
(* One attempt.  Planned outcomes: 1 no socket, 2 options refused, 3 bind refused, 4 listen refused, 5 connection refused at
   once, 6 and 9 connection established later (9 and 10: after an interruption), 7 no answer ever, 8 and 10 refused later. *)
Mask(o) == (o \div 8) % 512
Try(c, f, mode, opts, tmo) ==
  LET o2m == Bit(opts, 4)
      ty == IF c.proto = 132 /\ o2m THEN 5 ELSE c.type
      re == mode = 0 /\ c.fam # 1 /\ ~Bit(opts, 1)
      bc == mode = 1 /\ ty = 2 /\ Bit(opts, 1048576)
      ev == o2m
      lst == mode = 0 /\ ty \in {1, 5}
      con == mode = 1 /\ ~Bit(opts, 2)
      B == [fam |-> c.fam, type |-> ty, proto |-> c.proto]
      Stop == [fam |-> c.fam, type |-> ty, proto |-> c.proto, how |-> "none", ad |-> <<>>, port |-> 0, re |-> FALSE, bc |-> FALSE, ev |-> -1, bl |-> -1]
      Opted == [Stop EXCEPT !.re = re, !.bc = bc, !.ev = IF ev THEN Mask(opts) ELSE -1]
      Bound == [Opted EXCEPT !.how = "bind", !.ad = c.ad, !.port = c.port]
      Conn == [Opted EXCEPT !.how = "connect", !.ad = c.ad, !.port = c.port]
      Bad(x) == [ok |-> FALSE, rec |-> x]
      Good(x) == [ok |-> TRUE, rec |-> x]
  IN CASE f = 1 -> Bad(Stop)
       [] f = 2 /\ (re \/ bc \/ ev) -> Bad(Stop)
       [] mode = 0 -> IF f = 3 \/ (f = 4 /\ lst) THEN Bad(Bound) ELSE Good([Bound EXCEPT !.bl = IF lst THEN 300 ELSE -1])
       [] ~con -> Good(Opted)
       [] f \in {5, 7, 8, 10} -> Bad(Conn)
       [] OTHER -> Good(Conn)
RECURSIVE Attempts(_, _, _, _, _)
Attempts(cs, plan, mode, opts, tmo) ==
  IF cs = <<>> THEN [rc |-> -1, at |-> <<>>, n |-> 0]
  ELSE LET t == Try(cs[1], IF plan = <<>> THEN 0 ELSE plan[1], mode, opts, tmo)
       IN IF t.ok THEN [rc |-> 0, at |-> <<t.rec>>, n |-> 1]
          ELSE LET z == Attempts(Tail(cs), Drop(plan, 1), mode, opts, tmo) IN [z EXCEPT !.at = <<t.rec>> \o z.at, !.n = z.n + 1]
----
(* cs: the candidates of the address at hand, <<>> when there is none; used: a socket was made from it *)
Init0 == [cs |-> <<>>, mode |-> 0, opts |-> 0]
Or(a, b) == LET RECURSIVE G(_, _, _)
                G(x, y, k) == IF k = 0 THEN 0 ELSE (IF x % 2 = 1 \/ y % 2 = 1 THEN 1 ELSE 0) + 2 * G(x \div 2, y \div 2, k - 1) IN G(a, b, 21)
Made(z) == [rc |-> z.rc, at |-> z.at, open |-> IF z.rc = 0 THEN 1 ELSE 0, nb |-> FALSE, left |-> 0]
(* connecting: first outcome 0 done, 1 in progress, 2 interrupted, 3 refused; fin: when it completes (-1 never),
   so: how (0 well, 2 no answer, others refused, reset, unreachable...); the limit is tmo milliseconds and tu microseconds *)
Lim(o) == IF o.tmo >= 0 /\ o.tu > 0 THEN o.tmo + 1 ELSE o.tmo
ConnErr(o) == IF o.so = 0 THEN {0} ELSE IF o.so = 2 THEN {-1, -2} ELSE {-1}
ConnR(o) ==
  LET lim == o.tmo >= 0
      nb == o.nb0
      A(rc, el, n) == [rc |-> rc, el |-> el, nb |-> n, keep |-> TRUE]
      NB == IF o.ff = 3 /\ lim THEN {TRUE, FALSE} ELSE {o.nb0}
      Outs == CASE o.first = 0 -> {<<0, 0>>}
                [] o.first = 3 -> {<<x, 0>> : x \in IF o.so = 0 THEN {-1} ELSE ConnErr(o)}
                [] OTHER ->
                  (IF o.fin >= 0 /\ (~lim \/ o.fin <= Lim(o))
                   THEN LET rcs == IF o.ff = 4 THEN {-1} ELSE ConnErr(o) IN {<<x, o.fin>> : x \in rcs}
                   ELSE {}) \cup
                  (IF lim /\ (o.fin < 0 \/ o.fin >= Lim(o)) THEN {<<-2, Lim(o)>>, <<-2, Lim(o) + 1>>} ELSE {})
  IN {A(x[1], x[2], n) : x \in Outs, n \in NB} \cup
     (IF o.ff = 3 /\ lim THEN {A(-1, x[2], n) : x \in Outs, n \in {TRUE, FALSE}} ELSE {}) \cup {}
(* the clock cannot be read: first or later readings *)
ConnClock(o) == ConnR([o EXCEPT !.ff = 0]) \cup (IF o.tmo < 0 THEN {} ELSE {[rc |-> -1, el |-> x, nb |-> o.nb0, keep |-> TRUE] : x \in {0} \cup Range(o.ev)})
(* control comes back `late` after an interruption: the limit may be found to have passed, success may be noticed later; never before its time *)
LateOk(o, r) ==
  LET lim == o.tmo >= 0
      slack == 1 + o.late * Len(o.ev)
  IN /\ r.nb = o.nb0 /\ r.keep
     /\ CASE o.first = 0 -> r.rc = 0 /\ r.el = 0
          [] o.first = 3 -> r.rc \in (IF o.so = 0 THEN {-1} ELSE ConnErr(o)) /\ r.el = 0
          [] r.rc = 0 -> o.fin >= 0 /\ o.so = 0 /\ r.el \in o.fin..o.fin + slack /\ (lim => o.fin <= Lim(o) + slack)
          [] r.rc = -1 -> o.fin >= 0 /\ o.so # 0 /\ r.el \in o.fin..o.fin + slack
          [] r.rc = -2 -> \/ lim /\ r.el \in Lim(o)..Lim(o) + slack /\ (o.fin < 0 \/ o.fin >= Lim(o) \/ \E i \in 1..Len(o.ev) : o.ev[i] <= o.fin /\ o.ev[i] + slack > Lim(o))
                          \/ o.so = 2 /\ o.fin >= 0 /\ r.el \in o.fin..o.fin + slack
          [] OTHER -> FALSE
ConnAll(o) == IF o.late > 0 THEN (IF "r" \in DOMAIN o /\ LateOk(o, o.r) THEN {o.r} ELSE ConnR(o)) ELSE IF o.ff = 7 /\ o.first \in {1, 2} THEN {[rc |-> -1, el |-> 0, nb |-> o.nb0, keep |-> TRUE]}   \* waiting fails
             ELSE IF o.ff \in {5, 6} THEN ConnClock(o) ELSE IF o.tmo >= 0 /\ o.ff \in {1, 2} THEN {[rc |-> -1, el |-> 0, nb |-> o.nb0, keep |-> TRUE]} \cup
                                                    (IF o.nb0 THEN ConnR(o) ELSE {}) ELSE ConnR(o)
FAILTXT == <<40, 115, 111, 99, 107, 97, 100, 100, 114, 32, 99, 111, 110, 118, 101, 114, 115, 105, 111, 110, 32, 102, 97, 105, 108, 101, 100, 41>>
RECURSIVE Join4(_)
Join4(b) == IF Len(b) = 1 THEN Dec(b[1]) ELSE Dec(b[1]) \o <<46>> \o Join4(Tail(b))
(* t names the 16 bytes b *)
Names6(t, b) == t # <<>> /\ V6(t) = b
Ntop(o, t) ==
  CASE o.af = 4 -> t = IF o.len > Len(Join4(o.b)) THEN Join4(o.b) ELSE NIL
    [] o.af = 6 -> IF t = NIL THEN o.len < 46 ELSE Len(t) < o.len /\ Names6(t, o.b)
    [] OTHER -> t = NIL
Sfx(t, n) == SubSeq(t, Len(t) - n + 1, Len(t))
SaFull(o, t) ==
  CASE o.af = 4 -> t = Join4(o.b) \o <<58>> \o Dec(o.port)
    [] o.af = 6 -> LET e == <<93, 58>> \o Dec(o.port) IN
                   Len(t) > Len(e) + 1 /\ t[1] = 91 /\ Sfx(t, Len(e)) = e /\ Names6(SubSeq(t, 2, Len(t) - Len(e)), o.b)
    [] o.af = 1 -> t = o.b
(* a text that does not fit may be cut, never written past the end *)
Sa(o, t) ==
  CASE o.af \notin {1, 4, 6} \/ o.len = 0 -> t = FAILTXT
    [] o.af = 1 -> t = Take(o.b, o.len - 1) \/ (o.len <= Len(o.b) /\ t = FAILTXT)
    [] o.af = 4 -> LET f == Join4(o.b) \o <<58>> \o Dec(o.port) IN t = Take(f, o.len - 1) \/ (o.len <= Len(f) /\ t = FAILTXT)
    [] o.af = 6 -> SaFull(o, t) \/ (o.len < 60 /\ (t = FAILTXT \/ Len(t) = o.len - 1))
Got(o) == IF "r" \in DOMAIN o THEN o.r.t ELSE NIL
Do(s, o) ==
  CASE o.op = "new" -> {[s |-> Init0, r |-> [left |-> 0]]}
    [] o.op = "addr" ->
         LET N(c) == [s |-> IF c = <<>> THEN Init0 ELSE [cs |-> c, mode |-> o.mode, opts |-> 0], r |-> [rc |-> IF c = <<>> THEN -1 ELSE 0, left |-> 0]]
             C == Cands(o.uri, o.mode)
         IN {N(c) : c \in IF o.k < 0 THEN {c \in C : c # <<>> /\ c[1].fam = 1} \cup {<<>>}       \* the resolver does not work
                           ELSE C \cup (IF o.k > 0 THEN {<<>>} ELSE {})}
    [] o.op = "opts" -> {[s |-> IF s.cs = <<>> THEN s ELSE [s EXCEPT !.opts = IF o.add THEN Or(s.opts, o.v) ELSE o.v], r |-> [rc |-> 0]]}
    [] o.op = "canacc" -> {[s |-> s, r |-> [rc |-> IF s.cs # <<>> /\ s.mode = 0 /\ s.cs[1].type = 1 THEN 1 ELSE 0]]}
    [] o.op = "mk" -> {[s |-> s, r |-> Made(Attempts(s.cs, o.plan, s.mode, s.opts, o.tmo))]}
    [] o.op = "sd" -> {[s |-> s, r |-> Made(Attempts(c, o.plan, o.mode, o.opts, o.tmo))] : c \in Cands(o.uri, o.mode)}
    [] o.op = "conn" -> {[s |-> s, r |-> x] : x \in ConnAll(o)}
    [] o.op = "acc" -> {[s |-> s, r |-> [rc |-> IF o.end = 0 THEN 0 ELSE -1, err |-> o.end]]}
    [] o.op = "nb" -> {[s |-> s, r |-> [rc |-> IF o.ff = 0 THEN 0 ELSE -1, nb |-> IF o.ff = 0 THEN o.on ELSE o.nb0, keep |-> TRUE]]} \cup
                      (IF o.ff = 2 /\ o.on = o.nb0 THEN {[s |-> s, r |-> [rc |-> 0, nb |-> o.nb0, keep |-> TRUE]]} ELSE {})
    [] o.op = "nagle" -> {[s |-> s, r |-> [rc |-> IF o.bad \/ o.ff # 0 THEN -1 ELSE 0, off |-> ~(o.bad \/ o.ff # 0)]]}
    [] o.op = "ntop" -> IF Ntop(o, Got(o)) THEN {[s |-> s, r |-> [t |-> Got(o)]]} ELSE {}
    [] o.op = "sa" -> IF Sa(o, Got(o)) THEN {[s |-> s, r |-> [t |-> Got(o)]]} ELSE {}
    [] OTHER -> {}
Inv(s) == \A i \in 1..Len(s.cs) : s.cs[i].type \in {1, 2} /\ s.cs[i].port \in 0..65535
====
