---- MODULE Buf ----
(* Growable buffer (u_buf): the contents are a sequence of bytes; capacity is implementation defined but never
   below the length; the files it is saved to and loaded from are part of the state. *)
EXTENDS Text, TLC
Absent == <<-1>>
Init0 == [d |-> <<>>, fs |-> <<Absent, Absent>>]
Res(o, rc, d, need) ==   \* results allowed for a call leaving contents d: terminated, capacity at least need
  LET size == IF "r" \in DOMAIN o /\ "size" \in DOMAIN o.r THEN o.r.size ELSE MaxN(need, Len(d))
  IN IF size >= Len(d) /\ size >= need THEN {[rc |-> rc, data |-> d, len |-> Len(d), term |-> TRUE, size |-> size]} ELSE {}
Out(s, o, rc, d, need) == {[s |-> [s EXCEPT !.d = d], r |-> r] : r \in Res(o, rc, d, need)}
OutF(s, o, rc, d, fs, f) == {[s |-> [s EXCEPT !.d = d, !.fs = fs], r |-> r @@ [file |-> fs[f]]] : r \in Res(o, rc, d, 0)}
Do(s, o) ==
  CASE o.op = "new" -> Out(Init0, o, 0, <<>>, 0)
    [] o.op = "append" -> IF o.b = <<>> THEN Out(s, o, 0, s.d, 0) \cup Out(s, o, -1, s.d, 0) ELSE Out(s, o, 0, s.d \o o.b, 0)
    [] o.op = "set" -> IF o.b = <<>> THEN Out(s, o, 0, <<>>, 0) \cup Out(s, o, -1, s.d, 0) ELSE Out(s, o, 0, o.b, 0)
    [] o.op = "printf" -> LET t == Fmt(o.kind, o.s, o.n) IN IF t = NIL THEN Out(s, o, -1, s.d, 0) ELSE Out(s, o, 0, s.d \o t, 0)
    [] o.op = "reserve" -> Out(s, o, 0, s.d, o.n)
    [] o.op = "huge" -> Out(s, o, -1, s.d, 0)
    [] o.op = "shrink" -> IF o.n <= Len(s.d) THEN Out(s, o, 0, Take(s.d, o.n), 0) ELSE Out(s, o, -1, s.d, 0)
    [] o.op = "clear" -> Out(s, o, 0, <<>>, 0)
    [] o.op = "detach" -> {[s |-> x.s, r |-> x.r @@ [det |-> s.d]] : x \in Out(s, o, 0, <<>>, 0)}
    [] o.op = "write" -> OutF(s, o, 0, s.d, [s.fs EXCEPT ![o.f] = o.b], o.f)           \* the environment writes a file
    [] o.op = "save" -> OutF(s, o, 0, s.d, [s.fs EXCEPT ![o.f] = s.d], o.f)
    [] o.op = "load" -> IF s.fs[o.f] = Absent THEN OutF(s, o, -1, s.d, s.fs, o.f) ELSE OutF(s, o, 0, s.fs[o.f], s.fs, o.f)
    \* no space left on the device, and paths that are directories
    [] o.op = "savefull" -> Out(s, o, -1, s.d, 0) \cup (IF s.d = <<>> THEN Out(s, o, 0, s.d, 0) ELSE {})
    [] o.op = "savedir" -> Out(s, o, -1, s.d, 0)
    [] o.op = "loaddir" -> Out(s, o, -1, s.d, 0)
    [] o.op = "free" -> {[s |-> Init0, r |-> [rc |-> 0, live |-> 0]]}
Inv(s) == \A i \in 1..Len(s.d) : s.d[i] \in 0..255
====
