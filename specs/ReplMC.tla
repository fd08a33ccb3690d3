---- MODULE ReplMC ----
(* Enumerates patterns and texts for matching (with the laws that tie the flags together), tokeniser scripts, copies and dates. *)
EXTENDS Repl, Json, TLC
CONSTANTS Which, PMax, TMax
VARIABLES p, t, op
Pc == CASE Which = 1 -> {<<42>>, <<63>>, <<97>>, <<46>>, <<47>>, <<92>>, <<91, 97, 45, 99, 93>>, <<91, 33, 97, 93>>, <<91, 93, 97, 93>>}
        [] Which = 2 -> {<<91>>, <<93>>, <<33>>, <<45>>, <<97>>, <<99>>, <<92>>}
        [] Which = 3 -> {<<42>>, <<46>>, <<47>>, <<97>>, <<63>>}
        [] OTHER -> {<<65>>, <<97>>, <<233>>, <<91, 224, 45, 255, 93>>, <<42>>, <<91, 66, 45, 68, 93>>}
Tc == CASE Which = 1 -> {97, 98, 46, 47, 92, 93}
        [] Which = 2 -> {91, 93, 97, 98, 45, 33}
        [] Which = 3 -> {46, 47, 97}
        [] OTHER -> {65, 97, 99, 233, 201}
Start == <<91>>
Op(x, y) == [op |-> "fnm", p |-> x, t |-> y]
MInit == p = (IF Which = 2 THEN Start ELSE <<>>) /\ t = <<>> /\ op = Op(p, t)
MNext == /\ \/ t = <<>> /\ Len(p) < PMax /\ (\E c \in Pc : p' = p \o c) /\ t' = t
            \/ Len(t) < TMax /\ (\E c \in Tc : t' = Append(t, c)) /\ p' = p
         /\ op' = Op(p', t')
MSpec == MInit /\ [][MNext]_<<p, t, op>>
Emit == PrintT(ToJson([f |-> 0, o |-> op, t |-> 0]))
(* every character of a text escaped *)
Quoted(x) == FoldSeq(LAMBDA c, a : a \o <<92, c>>, <<>>, x)
M(f) == Matches(p, t, f)
Laws == \A f \in 0..31 :
  /\ Matches(Quoted(t), t, f - (f % 2)) /\ \A i \in 1..Len(t) : ~Matches(Quoted([t EXCEPT ![i] = 1]), t, f - (f % 2))
  /\ IsOpen(p, f) \/
     /\ M(f) /\ ~Bit(f, 16) => M(f + 16)                                   \* a longer text may be left over
     /\ M(f) /\ Bit(f, 4) => M(f - 4)                                      \* the period rule only forbids
     /\ M(f) /\ Bit(f, 2) /\ ~Bit(f, 16) => M(f - 2)                       \* so does the slash rule
     /\ (\A i \in 1..Len(p) : p[i] \notin {42, 63, 91, 92}) /\ f % 32 < 8 => (M(f) <=> p = t)
     /\ ~Bit(f, 8) /\ M(f) /\ (\A i \in 1..Len(p) : p[i] # 91) => M(f + 8)
====
