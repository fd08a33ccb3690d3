---- MODULE ConfigTextMC ----
(* All texts made of up to MaxLen tokens. *)
EXTENDS Config, Json, TLC
CONSTANTS MaxLen, Which
VARIABLES t, n
Toks == CASE Which = 1 -> {<<97>>, <<98>>, <<32>>, <<10>>, <<123>>, <<125>>}
          [] Which = 2 -> {<<97>>, <<32, 9>>, <<10>>, <<35>>, <<92>>, <<13>>, <<46>>}
          [] Which = 3 -> {<<97, 32, 120, 10>>, <<97, 10, 123, 10>>, <<125, 10>>, <<98, 32, 36, 123, 97, 125, 46, 10>>, <<97, 32, 36, 123, 98, 46, 97, 125, 10>>,
                           <<98, 10, 123, 10>>, <<97, 32, 36, 123, 98, 10>>, <<98, 46, 97, 32, 122, 10>>, <<98, 10, 10, 35, 10, 123>>}
E0(ow) == Env([fs |-> <<>>], 0, FALSE, ow, FALSE)
MInit == t = <<>> /\ n = 0
MNext == n < MaxLen /\ n' = n + 1 /\ \E k \in Toks : t' = t \o k
MSpec == MInit /\ [][MNext]_<<t, n>>
(* texts made only of blanks and comments say nothing; what was loaded can be saved and loaded again;
   blank lines, indentation and comments make no difference *)
Flat(x) == Cat([i \in 1..Len(Lines(x)) |-> Clean(Lines(x)[i]) \o <<10>>])
Decor(x) == Cat([i \in 1..Len(Lines(x)) |-> <<9, 32>> \o Lines(x)[i] \o <<32, 13, 10, 32, 10>>])
Laws == LET r == LoadInto(E0(FALSE), Root, t) w == LoadInto(E0(TRUE), Root, t) IN
  /\ r.ok => (Lossless(r.t) /\ PrintLossless(r.t))
  /\ (Which # 3 => r.ok = w.ok)
  /\ LET d == LoadInto(E0(FALSE), Root, t \o <<10, 35, 120, 10>>) IN d.ok = r.ok /\ (r.ok => d.t = r.t)
  /\ (\A i \in 1..Len(t) : t[i] \notin {13, 35, 92}) =>
        LET d == LoadInto(E0(FALSE), Root, Decor(t)) f == LoadInto(E0(FALSE), Root, Flat(t)) IN
          d.ok = r.ok /\ f.ok = r.ok /\ (r.ok => d.t = r.t /\ f.t = r.t)
Emit == PrintT(ToJson([f |-> 0, o |-> [t |-> t], t |-> 0]))
====
