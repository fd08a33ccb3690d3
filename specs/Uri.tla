---- MODULE Uri ----
(* URI parsing and composition (srcs/toolbox/uri.c): RFC 3986 generic syntax, with the documented relaxations
   (a port may be a service name or the wildcard *; the inside of an IP literal is any non empty run of URI characters). *)
EXTENDS Text
Hex(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102
Alnum(c) == Alpha(c) \/ Digit(c)
SubDelims == {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
Unres(c) == Alnum(c) \/ c \in {45, 46, 95, 126}
Ups(c) == Unres(c) \/ c \in SubDelims
(* every % starts an encoding; every other character is allowed by P *)
Encoded(t, P(_)) ==
  \A i \in 1..Len(t) :
    \/ P(t[i])
    \/ t[i] = 37 /\ i + 2 <= Len(t) /\ Hex(t[i + 1]) /\ Hex(t[i + 2])
RegName(t) == Encoded(t, Ups)
UserChar(c) == Ups(c) \/ c = 58
PChar(c) == Ups(c) \/ c \in {58, 64}
PathChar(c) == PChar(c) \/ c = 47
QChar(c) == PathChar(c) \/ c = 63
SchemeOk(t) == t # <<>> /\ Alpha(t[1]) /\ \A i \in 1..Len(t) : Alnum(t[i]) \/ t[i] \in {43, 45, 46}
PortOk(t) == t = <<42>> \/ \A i \in 1..Len(t) : Alnum(t[i]) \/ t[i] \in {95, 45, 46}
(* first position of a character of S, or one past the end *)
Cut(t, S) == LET P(c) == c \in S
                 i == IndexP(t, 1, P) IN IF i = 0 THEN Len(t) + 1 ELSE i
Pre(t, i) == SubSeq(t, 1, i - 1)
Post(t, i) == SubSeq(t, i + 1, Len(t))
RECURSIVE Num(_)
Num(t) == IF t = <<>> THEN 0 ELSE Num(Pre(t, Len(t))) * 10 + t[Len(t)] - 48
Octet(t) == Len(t) \in 1..3 /\ (\A i \in 1..Len(t) : Digit(t[i])) /\ (Len(t) > 1 => t[1] # 48) /\ Num(t) < 256
RECURSIVE Octets(_, _)
Octets(t, n) == LET i == Cut(t, {46}) IN
  Octet(Pre(t, i)) /\ IF n = 1 THEN i > Len(t) ELSE i <= Len(t) /\ Octets(Post(t, i), n - 1)
IPv4(t) == Octets(t, 4)
Fields == {"scheme", "userinfo", "user", "pwd", "host", "port", "authority", "path", "query", "fragment"}
Empty == [f \in Fields |-> <<>>]
BAD == [ok |-> FALSE]
(* the authority component: [userinfo "@"] host [":" port] *)
Authority(a, split) ==
  LET at == Cut(a, {64})
      hasu == at <= Len(a)
      ui == IF hasu THEN Pre(a, at) ELSE <<>>
      hp == IF hasu THEN Post(a, at) ELSE a
      lit == hp # <<>> /\ hp[1] = 91
      close == Cut(hp, {93})
      colon == IF lit THEN close + 1 ELSE Cut(hp, {58})
      host == IF lit THEN SubSeq(hp, 2, close - 1) ELSE Pre(hp, colon)
      port == Post(hp, colon)
      uc == Cut(ui, {58})
  IN IF /\ Encoded(ui, UserChar)
        /\ IF lit THEN close <= Len(hp) /\ host # <<>> /\ Encoded(host, PChar) ELSE RegName(host)
        /\ colon <= Len(hp) => hp[colon] = 58
        /\ PortOk(port)
     THEN [ok |-> TRUE, ui |-> ui, user |-> IF split THEN Pre(ui, uc) ELSE <<>>, pwd |-> IF split THEN Post(ui, uc) ELSE <<>>,
           host |-> host, port |-> port, ip |-> lit \/ IPv4(host), lit |-> lit]
     ELSE BAD
(* Appendix B decomposition, then each component against its own production *)
Parse(t, split) ==
  LET sc == Cut(t, {58, 47, 63, 35})
      rest == Post(t, sc)
      h == Cut(rest, {35})
      frag == Post(rest, h)
      q == Cut(Pre(rest, h), {63})
      query == Post(Pre(rest, h), q)
      hier == Pre(Pre(rest, h), q)
      hasa == IsPrefixOf(<<47, 47>>, hier)
      h2 == Drop(hier, 2)
      slash == Cut(h2, {47})
      auth == IF hasa THEN Pre(h2, slash) ELSE <<>>
      path == IF hasa THEN Drop(h2, slash - 1) ELSE hier
      a == Authority(auth, split)
  IN IF /\ sc <= Len(t) /\ t[sc] = 58 /\ SchemeOk(Pre(t, sc))
        /\ hasa => a.ok
        /\ Encoded(path, PathChar) /\ Encoded(query, QChar) /\ Encoded(frag, QChar)
     THEN [ok |-> TRUE, hasa |-> hasa, ip |-> hasa /\ a.ip, lit |-> hasa /\ a.lit, nofrag |-> h > Len(rest),
           f |-> [Empty EXCEPT !["scheme"] = Pre(t, sc), !["path"] = path, !["query"] = query, !["fragment"] = frag,
                               !["authority"] = auth,
                               !["userinfo"] = IF hasa THEN a.ui ELSE <<>>, !["user"] = IF hasa THEN a.user ELSE <<>>,
                               !["pwd"] = IF hasa THEN a.pwd ELSE <<>>, !["host"] = IF hasa THEN a.host ELSE <<>>,
                               !["port"] = IF hasa THEN a.port ELSE <<>>]]
     ELSE BAD
(* the longest component that must be accepted *)
MaxTok == 124
Short(p) == \A f \in Fields \ {"authority"} : Len(p.f[f]) <= MaxTok
----
(* An object: component values; hasa/cooked: an authority component was parsed, and still stands for its parts. *)
Init0 == [live |-> FALSE]
Fresh == [live |-> TRUE, f |-> [Empty EXCEPT !["path"] = <<47>>], hasa |-> FALSE, cooked |-> FALSE, ip |-> FALSE, lit |-> FALSE]
OfParse(p) == [live |-> TRUE, f |-> p.f, hasa |-> p.hasa, cooked |-> p.hasa, ip |-> p.ip, lit |-> p.lit]
Atoms == {"userinfo", "user", "pwd", "host", "port"}
SetF(s, f, v) ==
  LET n == [s EXCEPT !.f[f] = v]
      u == IF s.cooked THEN [n EXCEPT !.f["authority"] = <<>>, !.cooked = FALSE] ELSE n
  IN CASE f = "host" -> [u EXCEPT !.ip = FALSE, !.lit = FALSE]
       [] f \in Atoms -> u
       [] f = "authority" -> [n EXCEPT !.cooked = FALSE, !.hasa = FALSE]
       [] OTHER -> n
IsIn(c, t) == \E i \in 1..Len(t) : t[i] = c
Brackets(s) == s.lit \/ IsIn(58, s.f["host"])
UserPart(f) == IF f["userinfo"] # <<>> THEN f["userinfo"] \o <<64>>
               ELSE IF f["pwd"] # <<>> THEN f["user"] \o <<58>> \o f["pwd"] \o <<64>>
               ELSE IF f["user"] # <<>> THEN f["user"] \o <<64>> ELSE <<>>
AuthText(s) == LET f == s.f IN
  UserPart(f) \o (IF Brackets(s) THEN <<91>> \o f["host"] \o <<93>> ELSE f["host"]) \o
  (IF f["port"] # <<>> THEN <<58>> \o f["port"] ELSE <<>>)
AnyAtom(f) == \E a \in Atoms : f[a] # <<>>
(* the composed text, NIL when a host is required and missing *)
Compose(s) ==
  LET f == s.f
      hasa == f["authority"] # <<>> \/ AnyAtom(f) \/ s.hasa \/ IsPrefixOf(<<47, 47>>, f["path"])
      auth == IF f["authority"] # <<>> THEN f["authority"] ELSE IF AnyAtom(f) THEN AuthText(s) ELSE <<>>
  IN IF f["authority"] = <<>> /\ AnyAtom(f) /\ f["host"] = <<>> THEN NIL
     ELSE (IF f["scheme"] # <<>> THEN f["scheme"] \o <<58>> ELSE <<>>) \o
          (IF hasa THEN <<47, 47>> \o auth ELSE <<>>) \o
          (IF hasa /\ f["path"] # <<>> /\ f["path"][1] # 47 THEN <<47>> ELSE <<>>) \o f["path"] \o
          (IF f["query"] # <<>> THEN <<63>> \o f["query"] ELSE <<>>) \o
          (IF f["fragment"] # <<>> THEN <<35>> \o f["fragment"] ELSE <<>>)
(* the fields as they are printed *)
Shown(label, v) == IF v = <<>> THEN <<>> ELSE label \o <<58, 32, 34>> \o v \o <<34, 10>>
Printed(f, ext) ==
  Shown(<<115, 99, 104, 101, 109, 101>>, f["scheme"]) \o Shown(<<117, 115, 101, 114, 105, 110, 102, 111>>, f["userinfo"]) \o
  (IF f["userinfo"] = <<>> \/ ~ext THEN <<>> ELSE <<123, 10>> \o Shown(<<32, 32, 117, 115, 101, 114>>, f["user"]) \o Shown(<<32, 32, 112, 119, 100>>, f["pwd"]) \o <<125, 10>>) \o
  Shown(<<104, 111, 115, 116>>, f["host"]) \o Shown(<<112, 111, 114, 116>>, f["port"]) \o Shown(<<112, 97, 116, 104>>, f["path"]) \o Shown(<<113, 117, 101, 114, 121>>, f["query"]) \o
  Shown(<<102, 114, 97, 103, 109, 101, 110, 116>>, f["fragment"])
Obs(s) == IF s.live THEN [f |-> s.f, ip |-> s.ip, lit |-> s.lit] ELSE [live |-> FALSE]
R(s, rc) == [s |-> s, r |-> [rc |-> rc, o |-> Obs(s)]]
SetLim == 127
Do(s, o) ==
  CASE o.op = "new" -> {R(Fresh, 0)}
    [] o.op = "parse" ->
         LET p == Parse(o.t, o.split) IN
         IF ~p.ok THEN {R(Init0, -1)} ELSE {R(OfParse(p), 0)} \cup (IF Short(p) THEN {} ELSE {R(Init0, -1)})
    [] o.op = "isabs" ->
         LET p == Parse(o.t, TRUE) IN
         {R(s, IF p.ok /\ p.nofrag THEN 1 ELSE 0)} \cup (IF p.ok /\ ~Short(p) THEN {R(s, 0)} ELSE {})
    [] ~s.live -> {R(s, -9)}
    [] o.op = "set" ->
         (IF o.null \/ Len(o.v) > SetLim THEN {R(s, -1)} ELSE {}) \cup (IF o.null THEN {} ELSE {R(SetF(s, o.f, o.v), 0)})
    [] o.op = "knead" -> {[s |-> s, r |-> [rc |-> IF Compose(s) = NIL THEN -1 ELSE 0, t |-> Compose(s), o |-> Obs(s)]]}
    [] o.op = "print" -> {[s |-> s, r |-> [t |-> Printed(s.f, o.ext), o |-> Obs(s)]]}
    [] OTHER -> {}
Inv(s) == s.live /\ s.cooked => s.hasa
====
