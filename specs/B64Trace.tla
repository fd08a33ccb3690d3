---- MODULE B64Trace ----
(* Acceptor of traces recorded from the real code: every recorded event (operation, arguments, observed
   result) must be a step of B64, i.e. one of the outcomes of Do in the current abstract state. *)
EXTENDS B64, Json, TLC
VARIABLES s, l
Trace == ndJsonDeserialize("trace.ndjson")
TInit == s = Init0 /\ l = 1
TStep ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         outcomes == IF e.op = "crash" THEN {} ELSE Do(s, e)
         ok == {d \in outcomes : d.r = e.r}
     IN IF ok # {} THEN \E d \in ok : s' = d.s /\ l' = l + 1
        ELSE /\ PrintT(<<"MISMATCH", l, "recorded", e, "allowed", {d.r : d \in outcomes}, "in state", s>>)
             /\ FALSE
TSpec == TInit /\ [][TStep]_<<s, l>>
TInv == Inv(s)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
