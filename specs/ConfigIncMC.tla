---- MODULE ConfigIncMC ----
(* Include graphs over three resources, with a failing open or close at every position. *)
EXTENDS Config, Json, TLC
CONSTANTS MaxFault, Depth3
VARIABLES w
nl == <<10>>
Inc(n) == INC \o <<32>> \o n \o nl
OInc(n) == OINC \o <<32>> \o n \o nl
f == <<102>>
g == <<103>>
h == <<104>>
ax == <<97, 32, 120, 10>>
bva == <<98, 32, 36, 123, 97, 125, 10>>
sec == <<115, 10, 123, 10>>
end == <<125, 10>>
P(n) == {Inc(n), OInc(n), ax \o Inc(n) \o bva, ax \o OInc(n) \o bva, sec \o Inc(n) \o bva \o end \o ax, sec \o OInc(n) \o end, sec \o Inc(n), OInc(n) \o end,
         <<99, 32>> \o n \o nl \o INC \o <<32, 36, 123, 99, 125, 10>>, Inc(n) \o Inc(n), OInc(n) \o Inc(n)}
Leaf == {<<>>, ax, bva, ax \o <<98, 32, 36, 123, 10>>, sec \o ax \o end \o ax \o bva, end, NIL}
MInit == \E tf \in P(g) \cup P(f), tg \in Leaf \cup (IF Depth3 THEN P(h) ELSE {Inc(h), ax \o OInc(h) \o bva, sec \o Inc(h) \o end}) \cup {Inc(f), OInc(f), OInc(g)}, th \in Leaf \cup {OInc(f), Inc(g)},
           fo \in 0..MaxFault, fc \in 0..MaxFault, ow \in {FALSE, TRUE} :
         /\ (fo = 0 \/ fc = 0) /\ w = [fs |-> <<f, g, h>>, x |-> <<tf, tg, th>>, fo |-> fo, fc |-> fc, ow |-> ow]
         /\ (tg \notin {Inc(h), OInc(h)} /\ IndexSub(tg, <<104>>, 1) = 0 => th = <<>>)
MNext == FALSE /\ w' = w
MSpec == MInit /\ [][MNext]_w
Fs == SelectSeq([i \in 1..3 |-> [n |-> w.fs[i], x |-> w.x[i]]], LAMBDA z : z.x # NIL)
Res == LoadRes([Env([fs |-> Fs], 0, TRUE, w.ow, FALSE) EXCEPT !.fo = w.fo, !.fc = w.fc], f)
(* every resource opened is closed, once, on every path; without faults the fault counters do not matter *)
Balanced == Res.no = Res.nc /\ Res.no <= Res.tries
Emit == PrintT(ToJson([f |-> 0, o |-> w, t |-> 0]))
====
