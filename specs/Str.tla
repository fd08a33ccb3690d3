---- MODULE Str ----
(* String objects (u_string): each holds a text without NULs.  Two objects, to observe that copies are independent. *)
EXTENDS Text, TLC
Closed == <<-1>>
Init0 == [t |-> <<Closed, Closed>>]
Res(s2, rc) == [s |-> s2, r |-> [rc |-> rc, t |-> s2.t, len |-> [i \in 1..2 |-> IF s2.t[i] = Closed THEN -1 ELSE Len(s2.t[i])]]]
Out(s, w, rc, d) == {Res([s EXCEPT !.t[w] = d], rc)}
Given(o) == Take(o.s, o.n)                    \* at most n characters of the given text
Do(s, o) ==
  IF o.op = "new" THEN {[s |-> Init0, r |-> [rc |-> 0]]}
  ELSE IF o.op = "end" THEN {[s |-> Init0, r |-> [rc |-> 0, live |-> 0]]}
  ELSE LET w == o.w   cur == s.t[w] IN
  CASE o.op = "create" -> IF o.s = NIL THEN Out(s, w, 0, <<>>) ELSE Out(s, w, 0, Given(o))
    [] o.op = "set" -> IF o.s = NIL THEN Out(s, w, -1, cur) ELSE Out(s, w, 0, Given(o))
    [] o.op = "append" -> IF o.s = NIL THEN Out(s, w, -1, cur) ELSE Out(s, w, 0, cur \o Given(o))
    [] o.op = "cat" -> Out(s, w, 0, cur \o o.s)
    [] o.op \in {"sprintf", "aprintf"} ->
         LET t == Fmt(o.kind, o.s, o.n) IN
         IF t = NIL THEN Out(s, w, -1, cur) ELSE Out(s, w, 0, IF o.op = "sprintf" THEN t ELSE cur \o t)
    [] o.op = "copy" -> Out(s, w, 0, s.t[o.from])
    [] o.op = "trim" -> Out(s, w, 0, TrimBlank(cur))
    [] o.op = "clear" -> Out(s, w, 0, <<>>)
    [] o.op = "reserve" -> Out(s, w, 0, cur)
    [] o.op = "huge" -> Out(s, w, -1, cur)
    [] o.op = "setlen" -> IF o.n <= Len(cur) THEN Out(s, w, 0, Take(cur, o.n)) ELSE Out(s, w, -1, cur)
    [] o.op = "free" -> Out(s, w, 0, Closed)
    \* an empty string may be handed out as NULL
    [] o.op = "detach" -> {[s |-> x.s, r |-> x.r @@ [det |-> d]] : x \in Out(s, w, 0, Closed), d \in {cur} \cup (IF cur = <<>> THEN {NIL} ELSE {})}
Enabled(s, o) == IF o.op = "create" THEN s.t[o.w] = Closed
                 ELSE s.t[o.w] # Closed /\ (o.op = "copy" => s.t[o.from] # Closed)
Inv(s) == \A w \in 1..2 : s.t[w] = Closed \/ \A i \in 1..Len(s.t[w]) : s.t[w][i] \in 1..255
====
