---- MODULE ReplTimeMC ----
(* Calendar laws, day by day: dates and day numbers are inverse, the next day is the next date. *)
EXTENDS Repl, TLC
CONSTANTS Before, To, Chunk
VARIABLE d
MInit == d \in {x \in -Before..To : x % Chunk = 0}
MNext == (d + 1) % Chunk # 0 /\ d < To /\ d' = d + 1
MSpec == MInit /\ [][MNext]_d
Laws == LET c == Civil(d) e == Civil(d + 1) IN
  /\ Days(c[1], c[2], c[3]) = d /\ c[3] \in 1..31 /\ c[2] \in 0..11
  /\ (e[1] = c[1] /\ e[2] = c[2] /\ e[3] = c[3] + 1) \/ (e[3] = 1 /\ c[3] >= 28 /\ (e[1] * 12 + e[2] = c[1] * 12 + c[2] + 1))
  /\ e[4] = (c[4] + 1) % 7 /\ (e[5] = c[5] + 1 \/ (e[5] = 0 /\ e[1] = c[1] + 1 /\ c[5] = 364 + (IF Leap(c[1]) THEN 1 ELSE 0)))
  /\ Days(c[1], c[2] - 12, c[3]) = Days(c[1] - 1, c[2], c[3]) /\ Days(c[1], c[2] + 1, 0) = Days(c[1], c[2], c[3]) + (IF e[3] = 1 THEN 0 ELSE Days(c[1], c[2] + 1, 0) - d)
ASSUME Civil(0) = <<1970, 0, 1, 4, 0>> /\ Days(2000, 1, 29) = 11016 /\ Days(2038, 0, 19) = 24855
====
