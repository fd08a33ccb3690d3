---- MODULE UriMC ----
(* Enumerates texts built from chunks; composition inverts parsing on all of them. *)
EXTENDS Uri, Json, TLC
CONSTANTS MaxLen, Which
VARIABLES t, n, op
(* chunk alphabets: 1 = delimiters, 2 = authority level, 3 = encodings, IP addresses *)
Chunks == CASE Which = 1 -> {<<97>>, <<58>>, <<47>>, <<63>>, <<35>>, <<64>>, <<32>>}
            [] Which = 2 -> {<<97>>, <<58>>, <<64>>, <<47>>, <<91>>, <<93>>, <<49>>, <<63>>}
            [] Which = 3 -> {<<37>>, <<52>>, <<103>>, <<65>>, <<47>>, <<58>>, <<64>>}
            [] OTHER -> {<<49>>, <<50, 53>>, <<53>>, <<46>>, <<48>>, <<97>>}
Start == CASE Which = 1 -> <<>>
           [] Which = 2 -> <<97, 58, 47, 47>>
           [] Which = 3 -> <<97, 58>>
           [] OTHER -> <<97, 58, 47, 47, 49, 46, 50, 46>>
MInit == t = Start /\ n = 0 /\ op = [op |-> "parse", t |-> Start, split |-> TRUE]
MNext == /\ n < MaxLen /\ n' = n + 1
         /\ \E c \in Chunks : t' = t \o c
         /\ op' = [op |-> "parse", t |-> t', split |-> TRUE]
MSpec == MInit /\ [][MNext]_<<t, n, op>>
Emit == PrintT(ToJson([f |-> 0, o |-> op, t |-> 0]))
Short1(p) == p.f["query"] # <<>> /\ p.f["fragment"] # <<>>
Laws == LET p == Parse(t, TRUE) IN p.ok =>
  LET s == OfParse(p)
      c == Compose(s)
      p2 == Parse(c, TRUE)
      d == SetF(s, "path", p.f["path"])   \* an edit that changes nothing
      e == SetF(s, "port", p.f["port"])   \* recomposed from the parts
  IN /\ c # NIL /\ p2.ok /\ p2.f = p.f /\ p2.hasa = p.hasa /\ p2.ip = p.ip /\ p2.lit = p.lit
     /\ ~IsIn(63, t) /\ ~IsIn(35, t) => c = t
     /\ Compose(d) = c
     /\ p.f["host"] # <<>> /\ ~IsPrefixOf(<<64>>, p.f["authority"]) =>
          LET g == Parse(Compose(e), TRUE) IN
             /\ g.ok
             /\ \A x \in Fields \ {"authority"} : g.f[x] = p.f[x]
====
